include!(concat!(env!("ARGS_GEN"), "/context_6.rs"));
