include!(concat!(env!("ARGS_GEN"), "/okay_2.rs"));
