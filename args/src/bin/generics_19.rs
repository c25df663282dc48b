include!(concat!(env!("ARGS_GEN"), "/generics_19.rs"));
