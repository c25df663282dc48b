include!(concat!(env!("SEQ_GEN"), "/val_s.rs"));
