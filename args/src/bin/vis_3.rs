include!(concat!(env!("ARGS_GEN"), "/vis_3.rs"));
