include!(concat!(env!("ARGS_GEN"), "/into_0.rs"));
