include!(concat!(env!("SEQ_GEN"), "/serde_a.rs"));
