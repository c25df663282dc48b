include!(concat!(env!("ARGS_GEN"), "/shape_2.rs"));
