include!(concat!(env!("ARGS_GEN"), "/vis_2.rs"));
