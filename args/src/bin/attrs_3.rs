include!(concat!(env!("ARGS_GEN"), "/attrs_3.rs"));
