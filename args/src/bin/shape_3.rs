include!(concat!(env!("ARGS_GEN"), "/shape_3.rs"));
