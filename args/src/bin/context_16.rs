include!(concat!(env!("ARGS_GEN"), "/context_16.rs"));
