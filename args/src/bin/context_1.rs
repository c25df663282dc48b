include!(concat!(env!("ARGS_GEN"), "/context_1.rs"));
