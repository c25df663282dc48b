include!(concat!(env!("SEQ_GEN"), "/ctor_a.rs"));
