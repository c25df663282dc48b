include!(concat!(env!("ARGS_GEN"), "/nofall_1.rs"));
