include!(concat!(env!("SEQ_GEN"), "/de_s.rs"));
