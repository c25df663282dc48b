include!(concat!(env!("ARGS_GEN"), "/generics_9.rs"));
