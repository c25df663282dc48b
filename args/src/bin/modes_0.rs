include!(concat!(env!("ARGS_GEN"), "/modes_0.rs"));
