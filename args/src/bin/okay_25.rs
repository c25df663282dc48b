include!(concat!(env!("ARGS_GEN"), "/okay_25.rs"));
