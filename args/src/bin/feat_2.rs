include!(concat!(env!("ARGS_GEN"), "/feat_2.rs"));
