include!(concat!(env!("SEQ_GEN"), "/opt_p.rs"));
