// Lexing and relexing: fall/parse/src/lex_engine.rs
verus! {

/// a lexer is a function from the rest of the text to the next token
pub trait Lexer {
    spec fn tok(&self, s: Seq<u8>) -> Token;
    spec fn ok(&self) -> bool;
    /// tokens are not empty, do not run over the end of the text and end between characters
    proof fn tok_ok(&self, s: Seq<u8>)
        requires self.ok(), s.len() <= u32::MAX
        ensures s.len() > 0 ==> 0 < self.tok(s).len.0 <= s.len() && bnd(s, self.tok(s).len.0 as int);

    fn next_token(&self, text: Text) -> (r: Token)
        requires self.ok(), text.wf(), text.bounded(), text@.len() > 0
        ensures r == self.tok(text@);

//@owner C03 C04
//@fn fall/parse/src/lex_engine.rs Lexer::step
    fn step(&self, text: &mut Text) -> «(r:» Token «)
        requires self.ok(), old(text).wf(), old(text).bounded(), old(text)@.len() > 0
        ensures r == self.tok(old(text)@), final(text).wf(), final(text).bounded(), final(text).owned == old(text).owned,
            final(text)@ == old(text)@.skip(r.len.0 as int), final(text).range.end == old(text).range.end,
            0 < r.len.0 <= old(text)@.len(), bnd(old(text)@, r.len.0 as int)» {
        let t = self.next_token(*text);
        «proof { self.tok_ok(text@); assert(text@.subrange(t.len.0 as int, text@.len() as int) =~= text@.skip(t.len.0 as int)); }»
        *text = text.slice(TextSuffix::from(t.len));
        t
    }
//@end
}

/// the tokens of a text: at every position the token the lexer gives for the rest
pub open spec fn lex_spec<L: Lexer>(l: &L, s: Seq<u8>) -> Seq<Token>
    decreases s.len()
{
    let t = l.tok(s);
    if s.len() == 0 || !(0 < t.len.0 <= s.len()) { Seq::empty() } else { seq![t] + lex_spec(l, s.skip(t.len.0 as int)) }
}
/// `toks` are the tokens of `s` up to `n`
pub open spec fn lexed<L: Lexer>(l: &L, s: Seq<u8>, toks: Seq<Token>, n: int) -> bool {
    0 <= n <= s.len() && bnd(s, n) && lex_spec(l, s) == toks + lex_spec(l, s.skip(n))
}
/// the type and length of a token depend only on its text and the character after it
/// (`k`: any character boundary after the token)
pub open spec fn lookahead1<L: Lexer>(l: &L) -> bool {
    forall|s1: Seq<u8>, s2: Seq<u8>, k: int| (#[trigger] l.tok(s1)).ty != ERROR && l.tok(s1).len.0 < k <= s1.len() && k <= s2.len() && bnd(s1, k) && #[trigger] s1.take(k) == #[trigger] s2.take(k)
        ==> l.tok(s2) == l.tok(s1)
}

/// C03: the tokens of a text tile it
pub proof fn lemma_lex_tiles<L: Lexer>(l: &L, s: Seq<u8>)
    requires l.ok(), s.len() <= u32::MAX
    ensures lens(lex_spec(l, s)) == s.len(), forall|i: int| 0 <= i < lex_spec(l, s).len() ==> (#[trigger] lex_spec(l, s)[i]).len.0 > 0
    decreases s.len()
{
    l.tok_ok(s);
    if s.len() > 0 {
        let t = l.tok(s);
        let rest = s.skip(t.len.0 as int);
        lemma_lex_tiles(l, rest);
        lemma_lens_concat(seq![t], lex_spec(l, rest));
        assert(seq![t].drop_last() =~= Seq::<Token>::empty());
        assert(lens(seq![t]) == t.len.0) by { assert(seq![t].last() == t); assert(lens(seq![t].drop_last()) == 0); }
        assert forall|i: int| 0 <= i < lex_spec(l, s).len() implies (#[trigger] lex_spec(l, s)[i]).len.0 > 0 by {
            if i > 0 { assert(lex_spec(l, s)[i] == lex_spec(l, rest)[i - 1]); }
        }
    }
}

pub proof fn lemma_lexed_start<L: Lexer>(l: &L, s: Seq<u8>)
    ensures lexed(l, s, Seq::empty(), 0)
{
    assert(s.skip(0) =~= s);
    assert(Seq::<Token>::empty() + lex_spec(l, s) =~= lex_spec(l, s));
}
pub proof fn lemma_lexed_step<L: Lexer>(l: &L, s: Seq<u8>, toks: Seq<Token>, n: int)
    requires l.ok(), s.len() <= u32::MAX, lexed(l, s, toks, n), n < s.len()
    ensures lexed(l, s, toks.push(l.tok(s.skip(n))), n + l.tok(s.skip(n)).len.0), 0 < l.tok(s.skip(n)).len.0 <= s.len() - n
{
    let t = l.tok(s.skip(n));
    l.tok_ok(s.skip(n));
    assert(s.skip(n).skip(t.len.0 as int) =~= s.skip(n + t.len.0));
    assert(toks.push(t) + lex_spec(l, s.skip(n + t.len.0)) =~= toks + (seq![t] + lex_spec(l, s.skip(n + t.len.0))));
}
pub proof fn lemma_lexed_end<L: Lexer>(l: &L, s: Seq<u8>, toks: Seq<Token>)
    requires lexed(l, s, toks, s.len() as int)
    ensures toks == lex_spec(l, s)
{
    assert(toks + lex_spec(l, s.skip(s.len() as int)) =~= toks);
}
/// the rest of the old tokens, from index `i` on, start at offset `n`
pub open spec fn rest_at<L: Lexer>(l: &L, s: Seq<u8>, toks: Seq<Token>, i: int, n: int) -> bool {
    0 <= n <= s.len() && 0 <= i <= toks.len() && toks.skip(i) == lex_spec(l, s.skip(n))
}
pub proof fn lemma_rest_step<L: Lexer>(l: &L, s: Seq<u8>, toks: Seq<Token>, i: int, n: int)
    requires l.ok(), s.len() <= u32::MAX, rest_at(l, s, toks, i, n), n < s.len()
    ensures i < toks.len(), toks[i] == l.tok(s.skip(n)), 0 < toks[i].len.0 <= s.len() - n, rest_at(l, s, toks, i + 1, n + toks[i].len.0)
{
    let t = l.tok(s.skip(n));
    l.tok_ok(s.skip(n));
    assert(lex_spec(l, s.skip(n)) =~= seq![t] + lex_spec(l, s.skip(n).skip(t.len.0 as int)));
    assert(toks.skip(i)[0] == t);
    assert(s.skip(n).skip(t.len.0 as int) =~= s.skip(n + t.len.0));
    assert(toks.skip(i + 1) =~= toks.skip(i).skip(1));
    assert(toks.skip(i + 1) =~= lex_spec(l, s.skip(n + t.len.0)));
}
/// what came before and what comes after an operation in the edited text
pub proof fn lemma_ops_at(ops: Seq<TextEditOp>, t: Seq<u8>, i: int)
    requires 0 <= i < ops.len()
    ensures
        ops_text(ops.take(i), t).len() + op_text(ops[i], t).len() == ops_text(ops.take(i + 1), t).len(),
        ops_text(ops.take(i + 1), t).len() <= ops_text(ops, t).len(),
        ops_text(ops, t).subrange(ops_text(ops.take(i), t).len() as int, ops_text(ops.take(i + 1), t).len() as int) == op_text(ops[i], t),
    decreases ops.len()
{
    assert(ops.take(i + 1).drop_last() =~= ops.take(i));
    assert(ops.take(i + 1).last() == ops[i]);
    let a = ops_text(ops.take(i), t).len() as int;
    let b = ops_text(ops.take(i + 1), t).len() as int;
    if i + 1 == ops.len() {
        assert(ops.take(i + 1) =~= ops);
        assert(ops_text(ops, t).subrange(a, b) =~= op_text(ops[i], t));
    } else {
        let d = ops.drop_last();
        lemma_ops_at(d, t, i);
        assert(d.take(i) =~= ops.take(i));
        assert(d.take(i + 1) =~= ops.take(i + 1));
        assert(ops_text(ops, t) == ops_text(d, t) + op_text(ops.last(), t));
        assert(ops_text(ops, t).subrange(a, b) =~= ops_text(d, t).subrange(a, b));
    }
}
/// a token that ends before the end of a copied piece, at the same place in the piece, is the same token
pub proof fn lemma_reuse<L: Lexer>(l: &L, old: Seq<u8>, new: Seq<u8>, r: TextRange, edit_point: int, op: int, np: int)
    requires lookahead1(l), r.wf(), r.end.0 <= old.len(), bnd(old, r.end.0 as int), 0 <= edit_point, edit_point + r.length() <= new.len(),
        new.subrange(edit_point, edit_point + r.length()) == old.subrange(r.start.0 as int, r.end.0 as int),
        r.start.0 <= op < r.end.0, np - edit_point == op - r.start.0,
        l.tok(old.skip(op)).ty != ERROR, op + l.tok(old.skip(op)).len.0 < r.end.0,
    ensures l.tok(new.skip(np)) == l.tok(old.skip(op))
{
    let k = r.end.0 - op;
    let (s1, s2) = (old.skip(op), new.skip(np));
    assert forall|j: int| 0 <= j < k implies s1[j] == s2[j] by {
        assert(s1[j] == old.subrange(r.start.0 as int, r.end.0 as int)[op - r.start.0 + j]);
        assert(s2[j] == new.subrange(edit_point, edit_point + r.length())[np - edit_point + j]);
    }
    assert(s1.take(k) =~= s2.take(k));
    assert(bnd(s1, k));
}

//@owner C03
//@fn fall/parse/src/lex_engine.rs lex ## C03
pub fn lex<L: Lexer>(lexer: &L, text: Text) -> «(r:» Vec<Token> «)
    requires lexer.ok(), text.wf(), text.bounded()
    ensures r@ == lex_spec(lexer, text@)» {
    let mut result = Vec::new();
    let mut text = text;
    «let ghost all = text@;
    let ghost mut n = 0int;
    proof { lemma_lexed_start(lexer, all); assert(all.skip(0) =~= all); }»
    while !text.is_empty()
    «invariant lexer.ok(), text.wf(), text.bounded(), lexed(lexer, all, result@, n), text@ == all.skip(n), all.len() <= u32::MAX
     decreases text@.len()»
    {
        «proof { lemma_lexed_step(lexer, all, result@, n); }»
        let t = lexer.step(&mut text);
        result.push(t);
        «proof { n = n + t.len.0; assert(all.skip(n) =~= all.skip(n - t.len.0).skip(t.len.0 as int)); }»
    }
    «proof { lemma_lexed_end(lexer, all, result@); }»
    result
}
//@end

pub open spec fn relex_pre<L: Lexer>(l: &L, old_tokens: Seq<Token>, ops: Seq<TextEditOp>, new: Seq<u8>, old: Seq<u8>) -> bool {
    old.len() <= u32::MAX && old_tokens == lex_spec(l, old) && ops_ok(ops, old.len() as int) && ops_bnd(ops, old) && new == ops_text(ops, old)
}

//@owner C04
//@fn fall/parse/src/lex_engine.rs relex
pub fn relex<L: Lexer>(lexer: &L, old_tokens: &[Token], edit: &TextEdit, new_text: Text) -> «(r:» (Vec<Token>, usize) «)
    requires lexer.ok(), new_text.wf(), new_text.bounded(), lookahead1(lexer), exists|old: Seq<u8>| relex_pre(lexer, old_tokens@, edit.ops@, new_text@, old)
    ensures r.0@ == lex_spec(lexer, new_text@), r.1 <= new_text@.len()» {
    «let ghost old = choose|old: Seq<u8>| relex_pre(lexer, old_tokens@, edit.ops@, new_text@, old);
    let ghost new = new_text@;
    let ghost toks = old_tokens@;»
    if {
        let mut r__0 = false;
        let mut i__0: usize = 0;
        while i__0 < old_tokens.len()
        «invariant_except_break !r__0, forall|i: int| 0 <= i < i__0 ==> (#[trigger] old_tokens@[i]).ty != ERROR
         invariant i__0 <= old_tokens@.len(),
         ensures !r__0 ==> forall|i: int| 0 <= i < old_tokens@.len() ==> (#[trigger] old_tokens@[i]).ty != ERROR
         decreases old_tokens@.len() - i__0»
        {
            let j__0 = i__0;
            i__0 = i__0 + 1;
            let token = old_tokens[j__0];
            if token.ty == ERROR {
                r__0 = true;
                break;
            }
        }
        r__0
    } {
        return (lex(lexer, new_text), 0);
    }
    let mut old_tokens = slice_iter_cloned(&old_tokens);
    let mut old_len = tu(0);
    let mut new_tokens: Vec<Token> = Vec::new();
    let mut new_len = tu(0);
    let mut edit_point = tu(0);
    let mut reused = tu(0);
    «proof { lemma_lexed_start(lexer, new); assert(old.skip(0) =~= old); assert(toks.skip(0) =~= toks); }»
    {
        let mut i__1: usize = 0;
        while i__1 < edit.ops.len()
        «invariant
            i__1 <= edit.ops@.len(), relex_pre(lexer, toks, edit.ops@, new, old), lexer.ok(), lookahead1(lexer), new_text@ == new, new_text.wf(), new_text.bounded(),
            forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).ty != ERROR,
            old_tokens.wf(), old_tokens.s@ == toks, rest_at(lexer, old, toks, old_tokens.i as int, old_len.0 as int),
            lexed(lexer, new, new_tokens@, new_len.0 as int), reused.0 <= new_len.0,
            edit_point.0 == ops_text(edit.ops@.take(i__1 as int), old).len(),
         decreases edit.ops@.len() - i__1»
        {
            let j__1 = i__1;
            i__1 = i__1 + 1;
            let op = &edit.ops[j__1];
            «proof { lemma_ops_at(edit.ops@, old, j__1 as int); assert(op_ok(edit.ops@[j__1 as int], old.len() as int)); }»
            match *op {
                TextEditOp::Insert(ref buf) => {
                    edit_point += buf.as_text().len()
                }
                TextEditOp::Copy(range) => {
                    «let ghost ep = edit_point.0 as int;
                    proof {
                        assert(new.subrange(new_len.0 as int, new.len() as int) =~= new.skip(new_len.0 as int));
                    }»
                    let mut txt = new_text.slice(TextSuffix::from(new_len));
                    while new_len < edit_point
                    «invariant
                        lexer.ok(), lookahead1(lexer), new_text@ == new, new_text.wf(), txt.wf(), txt.bounded(), txt@ == new.skip(new_len.0 as int),
                        lexed(lexer, new, new_tokens@, new_len.0 as int), reused.0 <= new_len.0, edit_point.0 == ep, ep + range.length() <= new.len(), range.wf(),
                     decreases new.len() - new_len.0»
                    {
                        «proof { lemma_lexed_step(lexer, new, new_tokens@, new_len.0 as int); }»
                        let token = lexer.step(&mut txt);
                        «proof { assert(new.skip(new_len.0 as int).skip(token.len.0 as int) =~= new.skip(new_len.0 + token.len.0)); }»
                        new_len += token.len;
                        new_tokens.push(token)
                    }
                    while old_len < range.start()
                    «invariant
                        lexer.ok(), old.len() <= u32::MAX, range.wf(), range.end.0 <= old.len(),
                        old_tokens.wf(), old_tokens.s@ == toks, rest_at(lexer, old, toks, old_tokens.i as int, old_len.0 as int),
                     decreases old.len() - old_len.0»
                    {
                        «proof { lemma_rest_step(lexer, old, toks, old_tokens.i as int, old_len.0 as int); }»
                        old_len += old_tokens.next().unwrap().len;
                    }
                    loop
                    «invariant
                        relex_pre(lexer, toks, edit.ops@, new, old), lexer.ok(), lookahead1(lexer), new_text@ == new, new_text.wf(), new_text.bounded(),
                        forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).ty != ERROR,
                        old_tokens.wf(), old_tokens.s@ == toks, rest_at(lexer, old, toks, old_tokens.i as int, old_len.0 as int),
                        lexed(lexer, new, new_tokens@, new_len.0 as int), reused.0 <= new_len.0,
                        edit_point.0 == ep, new_len.0 >= ep, ep + range.length() <= new.len(),
                        range.wf(), range.end.0 <= old.len(), bnd(old, range.end.0 as int), old_len.0 >= range.start.0,
                        new.subrange(ep, ep + range.length()) == old.subrange(range.start.0 as int, range.end.0 as int),
                        old_len.0 >= range.end.0 || (txt.wf() && txt.bounded() && txt@ == new.skip(new_len.0 as int)),
                     decreases old.len() - old_len.0 + new.len() - new_len.0»
                    {
                        let new_consumed = new_len - edit_point;
                        let old_consumed = old_len - range.start();
                        if new_consumed >= range.len() || old_consumed >= range.len() {
                            break
                        }
                        match new_consumed.cmp(&old_consumed) {
                            Ordering::Less => {
                                «proof { lemma_lexed_step(lexer, new, new_tokens@, new_len.0 as int); }»
                                let token = lexer.step(&mut txt);
                                «proof { assert(new.skip(new_len.0 as int).skip(token.len.0 as int) =~= new.skip(new_len.0 + token.len.0)); }»
                                new_len += token.len;
                                new_tokens.push(token)
                            }
                            Ordering::Equal => {
                                «let ghost (ol0, nl0) = (old_len, new_len);»
                                {
                                    loop
                                    «invariant_except_break
                                        new_len.0 - ep == old_len.0 - range.start.0, old_len.0 < range.end.0,
                                     invariant
                                        relex_pre(lexer, toks, edit.ops@, new, old), lexer.ok(), new.len() <= u32::MAX, lookahead1(lexer),
                                        forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).ty != ERROR,
                                        old_tokens.wf(), old_tokens.s@ == toks, rest_at(lexer, old, toks, old_tokens.i as int, old_len.0 as int),
                                        lexed(lexer, new, new_tokens@, new_len.0 as int), reused.0 <= new_len.0, new.len() <= u32::MAX,
                                        edit_point.0 == ep, new_len.0 >= ep, ep + range.length() <= new.len(), old_len.0 >= ol0.0, new_len.0 >= nl0.0,
                                        range.wf(), range.end.0 <= old.len(), bnd(old, range.end.0 as int), old_len.0 >= range.start.0,
                                        new.subrange(ep, ep + range.length()) == old.subrange(range.start.0 as int, range.end.0 as int),
                                     ensures old_len.0 >= range.end.0,
                                     decreases old.len() - old_len.0»
                                    {
                                        «proof { lemma_rest_step(lexer, old, toks, old_tokens.i as int, old_len.0 as int); }»
                                        if let Some(x__2) = old_tokens.next() {
                                            let token = x__2;
                                            «let ghost at = old_len.0 as int;»
                                            old_len += token.len;
                                            if old_len >= range.end() {
                                                break;
                                            }
                                            «proof {
                                                lemma_reuse(lexer, old, new, range, ep, at, new_len.0 as int);
                                                lemma_lexed_step(lexer, new, new_tokens@, new_len.0 as int);
                                            }»
                                            reused += token.len;
                                            new_len += token.len;
                                            new_tokens.push(token);
                                        } else {
                                            break;
                                        }
                                    }
                                }
                            }
                            Ordering::Greater => {
                                «proof { lemma_rest_step(lexer, old, toks, old_tokens.i as int, old_len.0 as int); }»
                                let token = old_tokens.next().unwrap();
                                old_len += token.len;
                            }
                        }
                    }
                    edit_point += range.len()
                }
            }
        }
    }
    «proof { assert(new.subrange(new_len.0 as int, new.len() as int) =~= new.skip(new_len.0 as int)); }
    let ghost mut n = new_len.0 as int;»
    let mut txt = new_text.slice(TextSuffix::from(new_len));
    while !txt.is_empty()
    «invariant lexer.ok(), new.len() <= u32::MAX, txt.wf(), txt.bounded(), txt@ == new.skip(n), lexed(lexer, new, new_tokens@, n)
     decreases txt@.len()»
    {
        «proof { lemma_lexed_step(lexer, new, new_tokens@, n); let t = lexer.tok(txt@); assert(new.skip(n).skip(t.len.0 as int) =~= new.skip(n + t.len.0)); n = n + t.len.0; }»
        new_tokens.push(lexer.step(&mut txt));
    };
    «proof { lemma_lexed_end(lexer, new, new_tokens@); }»
    let relexed_region = (new_text.len() - reused).utf8_len();
    (new_tokens, relexed_region)
}
//@end

} // verus!
