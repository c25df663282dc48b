include!(concat!(env!("ARGS_GEN"), "/generics_17.rs"));
