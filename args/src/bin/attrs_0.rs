include!(concat!(env!("ARGS_GEN"), "/attrs_0.rs"));
