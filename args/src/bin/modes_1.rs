include!(concat!(env!("ARGS_GEN"), "/modes_1.rs"));
