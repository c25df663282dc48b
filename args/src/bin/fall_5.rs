include!(concat!(env!("ARGS_GEN"), "/fall_5.rs"));
