include!(concat!(env!("ARGS_GEN"), "/excl_0.rs"));
