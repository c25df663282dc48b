include!(concat!(env!("ARGS_GEN"), "/traits_5.rs"));
