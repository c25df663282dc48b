include!(concat!(env!("ARGS_GEN"), "/auto_3.rs"));
