include!(concat!(env!("ARGS_GEN"), "/names_4.rs"));
