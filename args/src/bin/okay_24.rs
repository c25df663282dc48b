include!(concat!(env!("ARGS_GEN"), "/okay_24.rs"));
