include!(concat!(env!("SEQ_GEN"), "/de_a.rs"));
