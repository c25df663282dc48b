include!(concat!(env!("ARGS_GEN"), "/okay_27.rs"));
