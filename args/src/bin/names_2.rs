include!(concat!(env!("ARGS_GEN"), "/names_2.rs"));
