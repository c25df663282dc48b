include!(concat!(env!("ARGS_GEN"), "/context_14.rs"));
