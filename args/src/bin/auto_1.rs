include!(concat!(env!("ARGS_GEN"), "/auto_1.rs"));
