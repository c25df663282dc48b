include!(concat!(env!("ARGS_GEN"), "/feat_3.rs"));
