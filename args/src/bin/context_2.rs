include!(concat!(env!("ARGS_GEN"), "/context_2.rs"));
