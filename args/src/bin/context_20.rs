include!(concat!(env!("ARGS_GEN"), "/context_20.rs"));
