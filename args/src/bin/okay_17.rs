include!(concat!(env!("ARGS_GEN"), "/okay_17.rs"));
