include!(concat!(env!("ARGS_GEN"), "/names_0.rs"));
