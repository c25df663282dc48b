include!(concat!(env!("ARGS_GEN"), "/skip_2.rs"));
