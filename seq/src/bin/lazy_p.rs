include!(concat!(env!("SEQ_GEN"), "/lazy_p.rs"));
