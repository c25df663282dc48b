include!(concat!(env!("ARGS_GEN"), "/e2024_3.rs"));
