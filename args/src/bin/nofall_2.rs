include!(concat!(env!("ARGS_GEN"), "/nofall_2.rs"));
