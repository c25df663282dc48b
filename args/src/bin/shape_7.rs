include!(concat!(env!("ARGS_GEN"), "/shape_7.rs"));
