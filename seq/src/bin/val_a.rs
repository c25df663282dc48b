include!(concat!(env!("SEQ_GEN"), "/val_a.rs"));
