// Tokens: fall/parse/src/lex_engine.rs
//@owner C03 C04
verus! {

//@item fall/parse/src/lex_engine.rs struct:Token
«#[derive(Copy, Clone)]»
pub struct Token {
    pub ty: NodeType,
    pub len: TextUnit,
}
//@end

/// tokens tile a text: they are not empty and their lengths add up
pub open spec fn lens(toks: Seq<Token>) -> int
    decreases toks.len()
{
    if toks.len() == 0 { 0 } else { lens(toks.drop_last()) + toks.last().len.0 }
}
pub proof fn lemma_lens_concat(a: Seq<Token>, b: Seq<Token>)
    ensures lens(a + b) == lens(a) + lens(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_lens_concat(a, b.drop_last());
    }
}

} // verus!
