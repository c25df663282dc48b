include!(concat!(env!("ARGS_GEN"), "/context_3.rs"));
