include!(concat!(env!("ARGS_GEN"), "/nofeat_2.rs"));
