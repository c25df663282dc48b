include!(concat!(env!("ARGS_GEN"), "/generics_20.rs"));
