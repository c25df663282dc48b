include!(concat!(env!("ARGS_GEN"), "/generics_15.rs"));
