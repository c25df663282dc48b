include!(concat!(env!("ARGS_GEN"), "/serattr_3.rs"));
