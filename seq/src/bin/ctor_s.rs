include!(concat!(env!("SEQ_GEN"), "/ctor_s.rs"));
