include!(concat!(env!("ARGS_GEN"), "/attrs_6.rs"));
