include!(concat!(env!("ARGS_GEN"), "/okay_6.rs"));
