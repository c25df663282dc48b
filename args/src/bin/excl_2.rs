include!(concat!(env!("ARGS_GEN"), "/excl_2.rs"));
