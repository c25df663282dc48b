include!(concat!(env!("ARGS_GEN"), "/traits_2.rs"));
