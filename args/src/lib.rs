#[cfg(feature = "ext")]
include!(concat!(env!("ARGS_GEN"), "/ext_lib.rs"));
