include!(concat!(env!("ARGS_GEN"), "/e2018_2.rs"));
