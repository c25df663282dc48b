include!(concat!(env!("ARGS_GEN"), "/fall_3.rs"));
