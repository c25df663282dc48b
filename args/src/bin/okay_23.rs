include!(concat!(env!("ARGS_GEN"), "/okay_23.rs"));
