include!(concat!(env!("ARGS_GEN"), "/vis_4.rs"));
