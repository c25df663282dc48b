include!(concat!(env!("ARGS_GEN"), "/okay_7.rs"));
