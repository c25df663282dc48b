include!(concat!(env!("ARGS_GEN"), "/modes_3.rs"));
