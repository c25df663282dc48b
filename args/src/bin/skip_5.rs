include!(concat!(env!("ARGS_GEN"), "/skip_5.rs"));
