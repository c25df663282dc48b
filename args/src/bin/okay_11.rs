include!(concat!(env!("ARGS_GEN"), "/okay_11.rs"));
