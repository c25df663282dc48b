include!(concat!(env!("ARGS_GEN"), "/generics_3.rs"));
