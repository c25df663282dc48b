include!(concat!(env!("ARGS_GEN"), "/serattr_13.rs"));
