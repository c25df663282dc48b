include!(concat!(env!("ARGS_GEN"), "/skip_7.rs"));
