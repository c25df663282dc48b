include!(concat!(env!("SEQ_GEN"), "/ctor_p.rs"));
