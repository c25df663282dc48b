include!(concat!(env!("ARGS_GEN"), "/attrs_5.rs"));
