include!(concat!(env!("ARGS_GEN"), "/traits_0.rs"));
