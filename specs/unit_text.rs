//@include common.rs
//@include text_core.rs
//@include str.rs
//@include text.rs
