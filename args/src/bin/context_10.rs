include!(concat!(env!("ARGS_GEN"), "/context_10.rs"));
