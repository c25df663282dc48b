include!(concat!(env!("ARGS_GEN"), "/skip_3.rs"));
