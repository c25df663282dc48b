include!(concat!(env!("ARGS_GEN"), "/okay_1.rs"));
