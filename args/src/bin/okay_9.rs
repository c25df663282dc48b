include!(concat!(env!("ARGS_GEN"), "/okay_9.rs"));
