include!(concat!(env!("ARGS_GEN"), "/names_1.rs"));
