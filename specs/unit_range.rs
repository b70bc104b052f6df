//@include common.rs
//@include text_core.rs
