include!(concat!(env!("ARGS_GEN"), "/modes_2.rs"));
