include!(concat!(env!("ARGS_GEN"), "/context_11.rs"));
