include!(concat!(env!("ARGS_GEN"), "/serattr_7.rs"));
