include!(concat!(env!("ARGS_GEN"), "/okay_16.rs"));
