include!(concat!(env!("ARGS_GEN"), "/nofall_3.rs"));
