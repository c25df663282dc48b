include!(concat!(env!("ARGS_GEN"), "/items_1.rs"));
