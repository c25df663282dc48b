include!(concat!(env!("ARGS_GEN"), "/auto_4.rs"));
