include!(concat!(env!("ARGS_GEN"), "/generics_12.rs"));
