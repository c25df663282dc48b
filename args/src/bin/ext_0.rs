include!(concat!(env!("ARGS_GEN"), "/ext_0.rs"));
