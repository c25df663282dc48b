include!(concat!(env!("ARGS_GEN"), "/traits_1.rs"));
