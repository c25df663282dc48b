include!(concat!(env!("ARGS_GEN"), "/e2024_0.rs"));
