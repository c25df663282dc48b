include!(concat!(env!("ARGS_GEN"), "/context_15.rs"));
