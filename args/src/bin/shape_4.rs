include!(concat!(env!("ARGS_GEN"), "/shape_4.rs"));
