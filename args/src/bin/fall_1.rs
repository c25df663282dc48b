include!(concat!(env!("ARGS_GEN"), "/fall_1.rs"));
