include!(concat!(env!("ARGS_GEN"), "/serattr_12.rs"));
