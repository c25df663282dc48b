include!(concat!(env!("ARGS_GEN"), "/shape_6.rs"));
