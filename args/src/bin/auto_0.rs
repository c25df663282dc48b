include!(concat!(env!("ARGS_GEN"), "/auto_0.rs"));
