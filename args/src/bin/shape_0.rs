include!(concat!(env!("ARGS_GEN"), "/shape_0.rs"));
