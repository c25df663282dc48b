include!(concat!(env!("ARGS_GEN"), "/attrs_4.rs"));
