include!(concat!(env!("ARGS_GEN"), "/shape_1.rs"));
