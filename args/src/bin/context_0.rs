include!(concat!(env!("ARGS_GEN"), "/context_0.rs"));
