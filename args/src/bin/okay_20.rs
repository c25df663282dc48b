include!(concat!(env!("ARGS_GEN"), "/okay_20.rs"));
