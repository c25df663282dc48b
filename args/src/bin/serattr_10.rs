include!(concat!(env!("ARGS_GEN"), "/serattr_10.rs"));
