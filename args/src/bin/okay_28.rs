include!(concat!(env!("ARGS_GEN"), "/okay_28.rs"));
