include!(concat!(env!("ARGS_GEN"), "/context_22.rs"));
