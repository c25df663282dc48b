include!(concat!(env!("ARGS_GEN"), "/okay_13.rs"));
