include!(concat!(env!("ARGS_GEN"), "/generics_23.rs"));
