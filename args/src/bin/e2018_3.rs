include!(concat!(env!("ARGS_GEN"), "/e2018_3.rs"));
