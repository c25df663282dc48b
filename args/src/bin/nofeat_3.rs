include!(concat!(env!("ARGS_GEN"), "/nofeat_3.rs"));
