include!(concat!(env!("ARGS_GEN"), "/serattr_6.rs"));
