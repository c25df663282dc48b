include!(concat!(env!("SEQ_GEN"), "/serde_s.rs"));
