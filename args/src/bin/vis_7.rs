include!(concat!(env!("ARGS_GEN"), "/vis_7.rs"));
