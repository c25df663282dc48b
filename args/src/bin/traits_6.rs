include!(concat!(env!("ARGS_GEN"), "/traits_6.rs"));
