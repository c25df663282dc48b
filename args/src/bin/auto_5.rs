include!(concat!(env!("ARGS_GEN"), "/auto_5.rs"));
