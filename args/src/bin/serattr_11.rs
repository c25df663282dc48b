include!(concat!(env!("ARGS_GEN"), "/serattr_11.rs"));
