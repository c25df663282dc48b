include!(concat!(env!("ARGS_GEN"), "/context_23.rs"));
