include!(concat!(env!("ARGS_GEN"), "/okay_3.rs"));
