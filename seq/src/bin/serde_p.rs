include!(concat!(env!("SEQ_GEN"), "/serde_p.rs"));
