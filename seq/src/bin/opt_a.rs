include!(concat!(env!("SEQ_GEN"), "/opt_a.rs"));
