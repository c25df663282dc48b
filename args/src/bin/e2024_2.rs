include!(concat!(env!("ARGS_GEN"), "/e2024_2.rs"));
