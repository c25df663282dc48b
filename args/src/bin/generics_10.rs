include!(concat!(env!("ARGS_GEN"), "/generics_10.rs"));
