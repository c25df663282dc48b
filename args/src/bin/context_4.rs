include!(concat!(env!("ARGS_GEN"), "/context_4.rs"));
