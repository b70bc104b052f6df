//@include common.rs
//@include text_core.rs
//@include str.rs
//@include text.rs
//@include text_edit.rs
//@include node_type.rs
//@include token.rs
//@include lex.rs
//@include regex_lexer.rs
