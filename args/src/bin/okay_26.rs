include!(concat!(env!("ARGS_GEN"), "/okay_26.rs"));
