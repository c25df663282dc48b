include!(concat!(env!("ARGS_GEN"), "/okay_8.rs"));
