include!(concat!(env!("ARGS_GEN"), "/okay_15.rs"));
