include!(concat!(env!("SEQ_GEN"), "/lazy_s.rs"));
