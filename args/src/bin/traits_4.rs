include!(concat!(env!("ARGS_GEN"), "/traits_4.rs"));
