include!(concat!(env!("ARGS_GEN"), "/generics_1.rs"));
