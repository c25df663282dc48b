include!(concat!(env!("ARGS_GEN"), "/generics_0.rs"));
