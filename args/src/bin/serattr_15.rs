include!(concat!(env!("ARGS_GEN"), "/serattr_15.rs"));
