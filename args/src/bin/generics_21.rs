include!(concat!(env!("ARGS_GEN"), "/generics_21.rs"));
