include!(concat!(env!("ARGS_GEN"), "/context_5.rs"));
