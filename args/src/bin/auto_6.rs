include!(concat!(env!("ARGS_GEN"), "/auto_6.rs"));
