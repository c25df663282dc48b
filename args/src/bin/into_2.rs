include!(concat!(env!("ARGS_GEN"), "/into_2.rs"));
