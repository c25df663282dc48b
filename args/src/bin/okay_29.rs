include!(concat!(env!("ARGS_GEN"), "/okay_29.rs"));
