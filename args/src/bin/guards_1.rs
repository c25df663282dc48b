include!(concat!(env!("ARGS_GEN"), "/guards_1.rs"));
