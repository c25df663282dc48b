include!(concat!(env!("ARGS_GEN"), "/guards_3.rs"));
