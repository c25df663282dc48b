include!(concat!(env!("ARGS_GEN"), "/skip_6.rs"));
