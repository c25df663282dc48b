include!(concat!(env!("ARGS_GEN"), "/generics_14.rs"));
