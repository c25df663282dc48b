include!(concat!(env!("ARGS_GEN"), "/okay_21.rs"));
