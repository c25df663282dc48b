include!(concat!(env!("ARGS_GEN"), "/shape_5.rs"));
