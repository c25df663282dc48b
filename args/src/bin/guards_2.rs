include!(concat!(env!("ARGS_GEN"), "/guards_2.rs"));
