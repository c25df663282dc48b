include!(concat!(env!("ARGS_GEN"), "/names_5.rs"));
