include!(concat!(env!("ARGS_GEN"), "/e2024_5.rs"));
