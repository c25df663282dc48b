include!(concat!(env!("ARGS_GEN"), "/e2018_5.rs"));
