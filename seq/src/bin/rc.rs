include!(concat!(env!("SEQ_GEN"), "/rc.rs"));
