include!(concat!(env!("ARGS_GEN"), "/vis_6.rs"));
