include!(concat!(env!("SEQ_GEN"), "/lazy_a.rs"));
