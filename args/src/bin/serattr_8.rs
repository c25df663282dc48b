include!(concat!(env!("ARGS_GEN"), "/serattr_8.rs"));
