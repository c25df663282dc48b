include!(concat!(env!("ARGS_GEN"), "/items_0.rs"));
