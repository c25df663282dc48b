include!(concat!(env!("ARGS_GEN"), "/context_7.rs"));
