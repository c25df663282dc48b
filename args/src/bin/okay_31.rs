include!(concat!(env!("ARGS_GEN"), "/okay_31.rs"));
