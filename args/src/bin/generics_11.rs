include!(concat!(env!("ARGS_GEN"), "/generics_11.rs"));
