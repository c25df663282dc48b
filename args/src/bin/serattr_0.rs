include!(concat!(env!("ARGS_GEN"), "/serattr_0.rs"));
