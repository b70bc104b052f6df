//@include common.rs
//@include text_core.rs
//@include str.rs
//@include text.rs
//@include node_type.rs
//@include token.rs
//@include tree.rs
//@include events.rs
//@include convert.rs
