// verify: --verify-module salvage_
//@include common.rs
//@include text_core.rs
//@include str.rs
//@include text.rs
//@include text_edit.rs
//@include node_type.rs
//@include token.rs
//@include lex.rs
//@include events.rs
//@include grammar.rs
//@include good.rs
//@include parser.rs
//@include expr.rs
//@include pratt.rs
//@include parse.rs
//@include salvage.rs
