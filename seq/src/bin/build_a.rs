include!(concat!(env!("SEQ_GEN"), "/build_a.rs"));
