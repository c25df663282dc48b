include!(concat!(env!("ARGS_GEN"), "/fall_7.rs"));
