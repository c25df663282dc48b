include!(concat!(env!("ARGS_GEN"), "/serattr_9.rs"));
