include!(concat!(env!("ARGS_GEN"), "/generics_8.rs"));
