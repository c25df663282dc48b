include!(concat!(env!("ARGS_GEN"), "/traits_3.rs"));
