include!(concat!(env!("ARGS_GEN"), "/vis_5.rs"));
