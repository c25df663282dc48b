include!(concat!(env!("SEQ_GEN"), "/build_p.rs"));
