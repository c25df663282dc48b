include!(concat!(env!("ARGS_GEN"), "/generics_4.rs"));
