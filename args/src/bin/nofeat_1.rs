include!(concat!(env!("ARGS_GEN"), "/nofeat_1.rs"));
