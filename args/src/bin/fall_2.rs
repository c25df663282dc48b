include!(concat!(env!("ARGS_GEN"), "/fall_2.rs"));
