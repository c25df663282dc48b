include!(concat!(env!("ARGS_GEN"), "/auto_2.rs"));
