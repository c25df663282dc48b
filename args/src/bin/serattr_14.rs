include!(concat!(env!("ARGS_GEN"), "/serattr_14.rs"));
