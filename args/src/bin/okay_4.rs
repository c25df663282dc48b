include!(concat!(env!("ARGS_GEN"), "/okay_4.rs"));
