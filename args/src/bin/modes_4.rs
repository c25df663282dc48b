include!(concat!(env!("ARGS_GEN"), "/modes_4.rs"));
