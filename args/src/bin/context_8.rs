include!(concat!(env!("ARGS_GEN"), "/context_8.rs"));
