include!(concat!(env!("ARGS_GEN"), "/attrs_2.rs"));
