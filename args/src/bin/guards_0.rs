include!(concat!(env!("ARGS_GEN"), "/guards_0.rs"));
