include!(concat!(env!("ARGS_GEN"), "/excl_1.rs"));
