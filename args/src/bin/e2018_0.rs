include!(concat!(env!("ARGS_GEN"), "/e2018_0.rs"));
