include!(concat!(env!("ARGS_GEN"), "/serattr_2.rs"));
