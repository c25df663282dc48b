include!(concat!(env!("ARGS_GEN"), "/okay_5.rs"));
