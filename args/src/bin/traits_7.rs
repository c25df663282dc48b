include!(concat!(env!("ARGS_GEN"), "/traits_7.rs"));
