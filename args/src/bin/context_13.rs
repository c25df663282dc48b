include!(concat!(env!("ARGS_GEN"), "/context_13.rs"));
