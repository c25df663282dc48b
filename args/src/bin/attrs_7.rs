include!(concat!(env!("ARGS_GEN"), "/attrs_7.rs"));
