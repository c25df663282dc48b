include!(concat!(env!("ARGS_GEN"), "/names_7.rs"));
