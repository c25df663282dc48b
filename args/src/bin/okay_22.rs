include!(concat!(env!("ARGS_GEN"), "/okay_22.rs"));
