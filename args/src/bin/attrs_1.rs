include!(concat!(env!("ARGS_GEN"), "/attrs_1.rs"));
