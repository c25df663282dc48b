include!(concat!(env!("ARGS_GEN"), "/context_12.rs"));
