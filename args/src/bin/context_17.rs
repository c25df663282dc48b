include!(concat!(env!("ARGS_GEN"), "/context_17.rs"));
