include!(concat!(env!("ARGS_GEN"), "/feat_0.rs"));
