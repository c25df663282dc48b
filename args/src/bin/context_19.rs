include!(concat!(env!("ARGS_GEN"), "/context_19.rs"));
