include!(concat!(env!("ARGS_GEN"), "/serattr_4.rs"));
