include!(concat!(env!("ARGS_GEN"), "/fall_0.rs"));
