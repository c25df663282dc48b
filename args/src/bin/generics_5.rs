include!(concat!(env!("ARGS_GEN"), "/generics_5.rs"));
