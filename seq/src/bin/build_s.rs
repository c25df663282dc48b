include!(concat!(env!("SEQ_GEN"), "/build_s.rs"));
