include!(concat!(env!("ARGS_GEN"), "/skip_1.rs"));
