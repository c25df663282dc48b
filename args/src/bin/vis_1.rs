include!(concat!(env!("ARGS_GEN"), "/vis_1.rs"));
