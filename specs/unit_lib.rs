// verify: --verify-module lib_
//@include common.rs
//@include text_core.rs
//@include str.rs
//@include text.rs
//@include text_edit.rs
//@include node_type.rs
//@include token.rs
//@include lex.rs
//@include regex_lexer.rs
//@include tree.rs
//@include node.rs
//@include events.rs
//@include grammar.rs
//@include good.rs
//@include parser.rs
//@include expr.rs
//@include pratt.rs
//@include parse.rs
//@include convert.rs
//@include salvage.rs
//@include lib.rs
