//@include common.rs
//@include text_core.rs
//@include str.rs
//@include text.rs
//@include node_type.rs
//@include tree.rs
//@include node.rs
//@include search.rs
//@include selection.rs
