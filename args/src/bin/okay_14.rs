include!(concat!(env!("ARGS_GEN"), "/okay_14.rs"));
