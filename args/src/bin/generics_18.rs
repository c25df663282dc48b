include!(concat!(env!("ARGS_GEN"), "/generics_18.rs"));
