include!(concat!(env!("ARGS_GEN"), "/okay_30.rs"));
