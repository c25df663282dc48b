include!(concat!(env!("ARGS_GEN"), "/okay_0.rs"));
