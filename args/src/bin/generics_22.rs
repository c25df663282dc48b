include!(concat!(env!("ARGS_GEN"), "/generics_22.rs"));
