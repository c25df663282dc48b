include!(concat!(env!("SEQ_GEN"), "/opt_s.rs"));
