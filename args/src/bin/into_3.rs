include!(concat!(env!("ARGS_GEN"), "/into_3.rs"));
