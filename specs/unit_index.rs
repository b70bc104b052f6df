//@include common.rs
//@include index.rs
