include!(concat!(env!("ARGS_GEN"), "/excl_3.rs"));
