include!(concat!(env!("ARGS_GEN"), "/skip_4.rs"));
