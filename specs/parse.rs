// From tokens to events: the whole of the parser
//@owner C01 C02 C12 C13
//@rewrite | t : Token | lang . node_type_info ( t . ty ) . whitespace_like ==> tok_ws ( lang )
verus! {

#[verifier::external_body]
pub fn tok_ws(lang: &Language) -> (r: TokIsWs)
    ensures forall|ty: NodeType| #[trigger] r.is(ty) == lang.ws(ty)
{ unimplemented!() }

/// what the start rule leaves is an error at the end of the file
pub open spec fn file_events(v: Env, start: ExprRef) -> Option<Seq<Event>> {
    let g = v.inp();
    let n = v.nw.len() as int;
    match (v.q.s)(Item::E(start), start_st(), 0, n) {
        None => None,
        Some(o) => match o.res {
            Some(b) => Some(if b == n { o.ev } else { o.ev.drop_last() + node(ERROR, g.tokens(b, n)) + seq![Event::End] }),
            None => Some(node(g.ty(v.rules[start.0 as int]->Pub_ty), node(ERROR, g.tokens(0, n)))),
        }
    }
}
pub open spec fn file_ok(v: Env, start: ExprRef) -> bool {
    &&& v.ok() && start.0 < v.rules.len() && v.rules[start.0 as int] is Pub && forall|i: int| !#[trigger] (v.q.need)(start).contains(i)
}
/// the events of a file are one node of which all the other nodes are part, and cover the tokens
pub open spec fn file_good(v: Env, ev: Seq<Event>) -> bool {
    &&& fp_ok(ev) && balanced(ev) && starts(ev) && ev[0]->Start_forward_parent is None && covers(v.inp(), raws(ev), 0, v.nw.len() as int) && noted(v.inp(), ev, 0)
}
pub proof fn lemma_file_node(v: Env, ty: NodeType, ev: Seq<Event>)
    requires good(v.inp(), ev, 0, v.nw.len() as int)
    ensures file_good(v, node(ty, ev))
{
    lemma_good_node(v.inp(), ty, ev, 0, v.nw.len() as int);
    lemma_node_balanced(ty, ev);
}
/// what the start rule gives, and with an error at the end
pub proof fn lemma_file_rest(v: Env, start: ExprRef, c: int, n: int)
    requires file_ok(v, start), n == v.nw.len(), 0 <= c <= n,
        (v.q.s)(Item::E(start), start_st(), 0, n) matches Some(o) && o.res == Some(c) && good(v.inp(), o.ev.subrange(1, o.ev.len() - 1), 0, c)
    ensures ({
        let ev = (v.q.s)(Item::E(start), start_st(), 0, n)->0.ev;
        &&& ev.len() > 0 && ev.last() == Event::End
        &&& c == n ==> file_good(v, ev)
        &&& file_good(v, ev.drop_last() + node(ERROR, v.inp().tokens(c, n)) + seq![Event::End])
    })
{
    let g = v.inp();
    let o = (v.q.s)(Item::E(start), start_st(), 0, n)->0;
    lemma_solves(v.q.s, g, Item::E(start), start_st(), 0, n);
    let body = v.rules[start.0 as int]->Pub_body;
    let st1 = if v.rules[start.0 as int]->Pub_replaceable { start_st().at(start_st().prev, None) } else { start_st() };
    let i = (v.q.s)(Item::E(body), st1, 0, n)->0.ev;
    let ty = o.ev[0]->Start_ty;
    assert(o.ev =~= node(ty, i));
    assert(o.ev.subrange(1, o.ev.len() - 1) =~= i);
    if c == n { lemma_file_node(v, ty, i); }
    lemma_good_tokens(g, c, n);
    lemma_good_node(g, ERROR, g.tokens(c, n), c, n);
    lemma_good_concat(g, i, node(ERROR, g.tokens(c, n)), 0, c, n);
    lemma_file_node(v, ty, i + node(ERROR, g.tokens(c, n)));
    assert(o.ev.drop_last() + node(ERROR, g.tokens(c, n)) + seq![Event::End] =~= node(ty, i + node(ERROR, g.tokens(c, n))));
}
//@fn fall/parse/src/syn_engine/expr.rs parse
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse(
    prev: Option<(Cache, &[Event])>,
    grammar: Grammar,
    lang: &Language,
    text: Text,
    tokens: &[Token],
    «Ghost(q): Ghost<Q>,»
) -> «(r:» (Vec<Event>, u64) «)
    requires
        tokens@.len() <= u32::MAX, lens(tokens@) <= u32::MAX, file_ok(parse_env(prev, grammar, lang, text, tokens@, q), grammar.start_rule),
    ensures
        file_events(parse_env(prev, grammar, lang, text, tokens@, q), grammar.start_rule) == Some(r.0@),
        file_good(parse_env(prev, grammar, lang, text, tokens@, q), r.0@), r.0@.len() < 0x8000_0000»
{
    «let ghost v = parse_env(prev, grammar, lang, text, tokens@, q);
    let ghost g = v.inp();
    let ghost n = v.nw.len() as int;
    let ghost mut c = 0;»
    let is_ws = tok_ws(lang);
    let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens «, Ghost(q)»);

    let start_rule = parser.grammar.start_rule;
    «let ghost o = sem(&parser, Item::E(start_rule), pos);
    let ghost mut pre = Seq::<Event>::empty();
    proof {
        let w = |ty: NodeType| is_ws.is(ty);
        let x = |ty: NodeType| lang.ws(ty);
        assert(w =~= x);
        assert(parser.env() == v);
        assert(rule_ok(v, start_rule.0 as int));
    }»
    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
        Some(leftover) => {
            «proof {
                lemma_file_rest(v, start_rule, leftover.0 as int, n);
                assert(parser.events@ =~= o->0.ev);
                c = leftover.0 as int;
                pre = o->0.ev.drop_last();
            }»
            if leftover.is_empty() {
                return parser.done();
            }
            parser.reopen();
            leftover
        }
        None => {
            match parser.grammar[start_rule] {
                Expr::Pub { ty, .. } => parser.start(ty),
                _ => vpanic(),
            };
            «proof {
                let ty = g.ty(v.rules[start_rule.0 as int]->Pub_ty);
                pre = seq![open_ev(ty)];
                lemma_good_tokens(g, 0, n);
                lemma_good_node(g, ERROR, g.tokens(0, n), 0, n);
                lemma_file_node(v, ty, node(ERROR, g.tokens(0, n)));
                assert(pre + node(ERROR, g.tokens(0, n)) + seq![Event::End] =~= node(ty, node(ERROR, g.tokens(0, n))));
            }»
            pos
        }
    };
    parser.start_error();
    «proof { assert(g.tokens(c, c) =~= Seq::<Event>::empty()); }»
    loop
    «invariant_except_break parser.pos_ok(leftover),
     invariant parser.wf(), parser.env() == v, g == v.inp(), n == v.nw.len(), !parser.predicate_mode, repl_ok(v, parser.replacement), 0 <= c <= leftover.0 <= n, leftover.1 == n,
        parser.events@ =~= pre + seq![open_ev(ERROR)] + g.tokens(c, leftover.0 as int),
     ensures leftover.0 == n»
    {
        if let Some((_, ts)) = parser.bump(leftover) {
            «proof { assert(g.tokens(c, leftover.0 as int) + seq![g.token(leftover.0 as int)] =~= g.tokens(c, ts.0 as int)); }»
            leftover = ts;
        } else {
            break;
        }
    }
    parser.finish();
    parser.finish();
    «proof { assert(parser.events@ =~= pre + node(ERROR, g.tokens(c, n)) + seq![Event::End]); }»

    parser.done()
}
//@end
pub open spec fn parse_env<'g>(prev: Option<(Cache, &'g [Event])>, grammar: Grammar<'g>, lang: &Language, text: Text<'g>, tokens: Seq<Token>, q: Q) -> Env<'g> {
    Env { rules: grammar.rules@, tys: grammar.node_types@, text, tokens, nw: non_ws(|ty: NodeType| lang.ws(ty), tokens, tokens.len() as int), cache: prev, q }
}

// ---- tokens which are not spaces -------------------------------------------------------------
pub open spec fn gap_from(nw: Seq<(TextUnit, usize)>, i: int) -> int { if i <= 0 { 0 } else { nw[i - 1].1 + 1 } }
pub open spec fn gap_to(nw: Seq<(TextUnit, usize)>, i: int, n: int) -> int { if i < nw.len() { nw[i].1 as int } else { n } }
/// what is between tokens which are not spaces are spaces
pub open spec fn gap_ws(w: spec_fn(NodeType) -> bool, toks: Seq<Token>, nw: Seq<(TextUnit, usize)>, i: int, n: int) -> bool {
    0 <= gap_from(nw, i) <= gap_to(nw, i, n) <= n && forall|j: int| gap_from(nw, i) <= j < gap_to(nw, i, n) ==> w((#[trigger] toks[j]).ty)
}
pub open spec fn nw_at(w: spec_fn(NodeType) -> bool, toks: Seq<Token>, nw: Seq<(TextUnit, usize)>, i: int, n: int) -> bool {
    nw[i].1 < n && !w(toks[nw[i].1 as int].ty) && nw[i].0.0 == lens(toks.take(nw[i].1 as int))
}
pub proof fn lemma_non_ws(w: spec_fn(NodeType) -> bool, toks: Seq<Token>, n: int)
    requires 0 <= n <= toks.len() <= usize::MAX, lens(toks) <= u32::MAX
    ensures
        non_ws(w, toks, n).len() <= n,
        forall|i: int| 0 <= i <= non_ws(w, toks, n).len() ==> #[trigger] gap_ws(w, toks, non_ws(w, toks, n), i, n),
        forall|i: int| 0 <= i < non_ws(w, toks, n).len() ==> #[trigger] nw_at(w, toks, non_ws(w, toks, n), i, n),
    decreases n
{
    let nw = non_ws(w, toks, n);
    if n > 0 {
        let nv = non_ws(w, toks, n - 1);
        lemma_non_ws(w, toks, n - 1);
        lemma_lens_mono(toks, n - 1, toks.len() as int);
        lemma_lens_pos(toks.take(n - 1));
        assert(toks.take(toks.len() as int) =~= toks);
        let l = nv.len() as int;
        assert forall|i: int| 0 <= i <= nw.len() implies #[trigger] gap_ws(w, toks, nw, i, n) by {
            if i <= l {
                assert(gap_ws(w, toks, nv, i, n - 1));
                assert(gap_from(nw, i) == gap_from(nv, i));
                if !(w(toks[n - 1].ty)) { assert(gap_to(nw, i, n) == gap_to(nv, i, n - 1)); }
            }
        }
        assert forall|i: int| 0 <= i < nw.len() implies #[trigger] nw_at(w, toks, nw, i, n) by {
            if i < l { assert(nw_at(w, toks, nv, i, n - 1)); assert(nw[i] == nv[i]); }
        }
    }
}
pub proof fn lemma_lens_pos(toks: Seq<Token>)
    ensures lens(toks) >= 0
    decreases toks.len()
{
    if toks.len() > 0 { lemma_lens_pos(toks.drop_last()); }
}

} // verus!
