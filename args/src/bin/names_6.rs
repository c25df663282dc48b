include!(concat!(env!("ARGS_GEN"), "/names_6.rs"));
