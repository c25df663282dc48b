include!(concat!(env!("ARGS_GEN"), "/context_9.rs"));
