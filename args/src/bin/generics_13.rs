include!(concat!(env!("ARGS_GEN"), "/generics_13.rs"));
