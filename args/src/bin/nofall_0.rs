include!(concat!(env!("ARGS_GEN"), "/nofall_0.rs"));
