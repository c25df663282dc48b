include!(concat!(env!("ARGS_GEN"), "/generics_16.rs"));
