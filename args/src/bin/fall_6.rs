include!(concat!(env!("ARGS_GEN"), "/fall_6.rs"));
