include!(concat!(env!("ARGS_GEN"), "/skip_0.rs"));
