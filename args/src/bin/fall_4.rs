include!(concat!(env!("ARGS_GEN"), "/fall_4.rs"));
