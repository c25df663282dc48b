include!(concat!(env!("ARGS_GEN"), "/modes_5.rs"));
