include!(concat!(env!("ARGS_GEN"), "/auto_7.rs"));
