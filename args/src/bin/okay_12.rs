include!(concat!(env!("ARGS_GEN"), "/okay_12.rs"));
