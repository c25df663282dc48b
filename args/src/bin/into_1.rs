include!(concat!(env!("ARGS_GEN"), "/into_1.rs"));
