include!(concat!(env!("ARGS_GEN"), "/generics_7.rs"));
