include!(concat!(env!("ARGS_GEN"), "/serattr_5.rs"));
