include!(concat!(env!("ARGS_GEN"), "/e2018_4.rs"));
