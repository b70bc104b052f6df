fn main(){
 for s in &["", "x", "{", "]", "{}{}"] {
  for (n, l) in &[("json", lang_json::lang_json()), ("rust", lang_rust_syntax::lang_rust()), ("fall", lang_fall_syntax::lang_fall()), ("bnf", lang_bnf::lang_bnf())] {
   let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.parse(s.to_string()).root().range()));
   println!("{} {:?} {:?}", n, s, r.is_ok());
  }
 }
}
