include!(concat!(env!("SEQ_GEN"), "/de_p.rs"));
