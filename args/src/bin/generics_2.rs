include!(concat!(env!("ARGS_GEN"), "/generics_2.rs"));
