include!(concat!(env!("ARGS_GEN"), "/e2024_4.rs"));
