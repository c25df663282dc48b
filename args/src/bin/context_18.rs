include!(concat!(env!("ARGS_GEN"), "/context_18.rs"));
