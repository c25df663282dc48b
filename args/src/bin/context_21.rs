include!(concat!(env!("ARGS_GEN"), "/context_21.rs"));
