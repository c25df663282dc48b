include!(concat!(env!("ARGS_GEN"), "/generics_6.rs"));
