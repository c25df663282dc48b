include!(concat!(env!("ARGS_GEN"), "/okay_18.rs"));
