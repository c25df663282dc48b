include!(concat!(env!("ARGS_GEN"), "/serattr_1.rs"));
