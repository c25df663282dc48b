include!(concat!(env!("ARGS_GEN"), "/passed_0.rs"));
