include!(concat!(env!("ARGS_GEN"), "/e2024_1.rs"));
