include!(concat!(env!("ARGS_GEN"), "/names_3.rs"));
