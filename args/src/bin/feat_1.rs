include!(concat!(env!("ARGS_GEN"), "/feat_1.rs"));
