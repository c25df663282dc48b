include!(concat!(env!("ARGS_GEN"), "/e2018_1.rs"));
