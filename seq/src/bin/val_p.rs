include!(concat!(env!("SEQ_GEN"), "/val_p.rs"));
