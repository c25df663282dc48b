include!(concat!(env!("ARGS_GEN"), "/vis_0.rs"));
