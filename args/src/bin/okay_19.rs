include!(concat!(env!("ARGS_GEN"), "/okay_19.rs"));
