include!(concat!(env!("ARGS_GEN"), "/nofeat_0.rs"));
