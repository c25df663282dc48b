include!(concat!(env!("ARGS_GEN"), "/okay_10.rs"));
