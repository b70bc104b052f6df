// The whole of parsing: fall/parse/src/lib.rs
//@owner C01 C02 C05
//@rewrite lex_engine :: ==>
//@rewrite syn_engine :: ==>
//@rewrite metrics . measure_time ( $n , | | { $B } ) ==> { $B }
//@rewrite Option < Box < dyn Any + Sync + Send > > ==> Option < Opaque >
//@rewrite Some ( Box :: new ( incremental_data ) ) ==> Some ( opaque ( incremental_data ) )
//@rewrite & dyn Any ==> & Opaque
//@rewrite & ( dyn Any + Send + Sync ) ==> & Opaque
//@rewrite & | t | lang . node_type_info ( t . ty ) . whitespace_like ==> & tok_ws ( lang )
//@rewrite incremental_data . events . as_ref ( ) ==> incremental_data . events . as_slice ( )
//@rewrite incremental_data . downcast_ref ( ) . unwrap ( ) ==> downcast ( incremental_data )
//@rewrite & | ty | lang . node_type_info ( ty ) . whitespace_like ==> & ty_ws ( lang )
//@rewrite & | ty , spaces , leading | { if ty == file_ty { return spaces . len ( ) ; } let owned : Vec < _ > = { let mut r__0 = Vec :: new ( ) ; let mut i__0 : usize = 0 ; while i__0 < spaces . len ( ) { let j__0 = i__0 ; i__0 = i__0 + 1 ; let t = spaces [ j__0 ] . 0 ; let text = spaces [ j__0 ] . 1 ; r__0 . push ( ( t , text . to_cow ( ) ) ) ; } r__0 } ; let spaces = { let mut r__1 = Vec :: new ( ) ; let mut i__1 : usize = 0 ; while i__1 < owned . len ( ) { let j__1 = i__1 ; i__1 = i__1 + 1 ; let t = owned [ j__1 ] . 0 ; let text = & owned [ j__1 ] . 1 ; r__1 . push ( ( t , text . as_ref ( ) ) ) ; } r__1 } ; self . whitespace_binder . call ( ty , spaces , leading ) } ==> & file_binder ( file_ty , & self . whitespace_binder )
mod lib_ {
use super::*;
use super::salvage_::*;
verus! {

impl Metrics {
    #[verifier::external_body]
    pub fn record(&self, name: &'static str, value: u64, unit: &'static str) { unimplemented!() }
}
/// the closure `|ty| lang.node_type_info(ty).whitespace_like`: a function of what it captures
pub uninterp spec fn ws_of(lang: Language) -> IsWs;
#[verifier::external_body]
pub fn ty_ws(lang: &Language) -> (r: IsWs)
    ensures r == ws_of(*lang)
{ unimplemented!() }
pub broadcast axiom fn axiom_ws_of(lang: Language, ty: NodeType)
    ensures #[trigger] ws_of(lang).is(ty) == lang.ws(ty);

//@item fall/parse/src/lib.rs struct:IncrementalData
pub struct IncrementalData {
    pub tokens: Vec<Token>,
    pub events: Vec<Event>,
}
//@end

impl Opaque {
    /// what is stored in it
    pub uninterp spec fn data(&self) -> IncrementalData;
}
#[verifier::external_body]
pub fn opaque(d: IncrementalData) -> (r: Opaque) ensures r.data() == d { unimplemented!() }
#[verifier::external_body]
pub fn downcast(d: &Opaque) -> (r: &IncrementalData) ensures *r == d.data() { unimplemented!() }

/// events that cover the tokens which are not spaces can be converted, and leave only spaces
pub proof fn lemma_covers_fits(c: &Convertor, v: Env, w: spec_fn(NodeType) -> bool, rs: Seq<nat>, a: int, k: int)
    requires
        v.nw == non_ws(w, v.tokens, v.tokens.len() as int), v.tokens.len() <= usize::MAX, lens(v.tokens) <= u32::MAX,
        forall|ty: NodeType| #[trigger] c.is_whitespace.is(ty) == w(ty),
        0 <= a <= v.nw.len(), gap_from(v.nw, a) <= k <= gap_to(v.nw, a, v.tokens.len() as int),
        covers(v.inp(), rs, a, v.nw.len() as int),
    ensures
        fits_raw(c, rs, texts(v.text@, v.tokens).skip(k)),
        all_spaces(c, after_raw(c, rs, texts(v.text@, v.tokens).skip(k))),
    decreases rs.len()
{
    let g = v.inp();
    let nw = v.nw;
    let tl = v.tokens.len() as int;
    let tv = texts(v.text@, v.tokens);
    let rest = tv.skip(k);
    lemma_non_ws(w, v.tokens, tl);
    assert(gap_ws(w, v.tokens, nw, a, tl));
    let r = (gap_to(nw, a, tl) - k) as nat;
    assert forall|i: int| 0 <= i < r implies c.is_whitespace.is((#[trigger] rest[i]).ty) by { assert(v.tokens[k + i].ty == rest[i].ty); }
    if a < nw.len() { assert(nw_at(w, v.tokens, nw, a, tl)); assert(rest[r as int].ty == v.tokens[nw[a].1 as int].ty); }
    c.lemma_ws_run_is(rest, r);
    if rs.len() > 0 {
        let m = rs[0] as int;
        assert(contiguous(g, a, rs[0]));
        let b = a + m;
        assert(b <= nw.len()) by { lemma_covers_le(g, rs.skip(1), b, nw.len() as int); }
        let k2 = gap_to(nw, a, tl) + m;
        if m > 0 {
            assert(g.toks[a + (m - 1)].raw == g.toks[a].raw + (m - 1));
            assert(nw[b - 1].1 == nw[a].1 + m - 1);
        }
        assert(gap_ws(w, v.tokens, nw, b, tl));
        lemma_covers_fits(c, v, w, rs.skip(1), b, k2);
        assert(rest.skip((c.ws_run(rest) + rs[0]) as int) =~= tv.skip(k2));
    }
}

// ---- tokens tile the text --------------------------------------------------------------------
pub proof fn lemma_lex_bnd<L: Lexer>(l: &L, s: Seq<u8>, i: int)
    requires l.ok(), s.len() <= u32::MAX, 0 <= i <= lex_spec(l, s).len()
    ensures bnd_at(s, lex_spec(l, s), i)
    decreases s.len()
{
    let toks = lex_spec(l, s);
    l.tok_ok(s);
    if i == 0 {
        assert(toks.take(0) =~= Seq::<Token>::empty());
    } else {
        let t = l.tok(s);
        let rest = s.skip(t.len.0 as int);
        let more = lex_spec(l, rest);
        lemma_lex_bnd(l, rest, i - 1);
        lemma_lens_concat(seq![t], more.take(i - 1));
        assert(toks.take(i) =~= seq![t] + more.take(i - 1));
        assert(seq![t].drop_last() =~= Seq::<Token>::empty());
        assert(lens(seq![t]) == t.len.0) by { assert(seq![t].last() == t); assert(lens(seq![t].drop_last()) == 0); }
        let n = lens(more.take(i - 1));
        assert(bnd(rest, n));
        assert(bnd(s, t.len.0 + n));
    }
}
pub proof fn lemma_lex_tile<L: Lexer>(l: &L, s: Seq<u8>)
    requires l.ok(), s.len() <= u32::MAX
    ensures toks_tile(s, lex_spec(l, s)), lex_spec(l, s).len() <= s.len(), forall|i: int| 0 <= i < lex_spec(l, s).len() ==> (#[trigger] lex_spec(l, s)[i]).len.0 > 0
{
    lemma_lex_tiles(l, s);
    assert forall|i: int| 0 <= i <= lex_spec(l, s).len() implies #[trigger] bnd_at(s, lex_spec(l, s), i) by { lemma_lex_bnd(l, s, i); }
    lemma_lens_count(lex_spec(l, s));
}
pub proof fn lemma_lens_count(toks: Seq<Token>)
    requires forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).len.0 > 0
    ensures toks.len() <= lens(toks)
    decreases toks.len()
{
    if toks.len() > 0 { lemma_lens_count(toks.drop_last()); }
}

// ---- languages -------------------------------------------------------------------------------
/// `fn(NodeType, Vec<(NodeType, &str)>, bool) -> usize`
#[verifier::external_body]
pub struct BinderFn { x: u8 }
impl BinderFn {
    pub uninterp spec fn claims(&self, ty: NodeType, ws: Seq<(NodeType, Seq<u8>)>, leading: bool) -> nat;
}
//@rewrite1 fn ( ty : NodeType , adjacent_spaces : Vec < ( NodeType , & str ) > , leading : bool ) -> usize ==> BinderFn
//@item fall/parse/src/lib.rs struct:ParserDefinition
pub struct ParserDefinition {
    pub node_types: Vec<NodeType>,
    pub syntactical_rules: Vec<Expr>,
    pub whitespace_binder: BinderFn,
}
//@end

/// the closure which asks the binder of the language, and gives everything to the file
pub uninterp spec fn binder_of(file_ty: NodeType, f: BinderFn) -> Binder;
#[verifier::external_body]
pub fn file_binder(file_ty: NodeType, f: &BinderFn) -> (r: Binder)
    ensures
        r == binder_of(file_ty, *f),
        forall|ty: NodeType, ws: Seq<(NodeType, Seq<u8>)>, leading: bool| #[trigger] r.claims(ty, ws, leading) == if ty == file_ty { ws.len() } else { f.claims(ty, ws, leading) },
{ unimplemented!() }
impl BinderFn {
    pub open spec fn ok(&self) -> bool {
        forall|ty: NodeType, ws: Seq<(NodeType, Seq<u8>)>, leading: bool| #[trigger] self.claims(ty, ws, leading) <= ws.len()
    }
}

/// the builder holds a whole tree which covers the text
pub open spec fn complete(b: TreeBuilder, text: Seq<u8>) -> bool {
    &&& b.bv().inv() && b.in_progress@.len() == 0 && 0 < b.nodes@.len() <= u32::MAX && b.pos.0 == text.len()
    &&& forall|i: int| 0 <= i < b.bv().ns.len() ==> span_bnd(text, #[trigger] b.bv().ns[i])
}
impl ParserDefinition {
    pub open spec fn env<'g>(&self, prev: Option<(Cache, &'g [Event])>, lang: &Language, text: Text<'g>, toks: Seq<Token>, q: Q) -> Env<'g> {
        Env { rules: self.syntactical_rules@, tys: self.node_types@, text, tokens: toks, nw: non_ws(|ty: NodeType| lang.ws(ty), toks, toks.len() as int), cache: prev, q }
    }
    /// the grammar is closed, and `q` is what it means on these tokens
    pub open spec fn ok(&self, lang: &Language, text: Text, toks: Seq<Token>, q: Q) -> bool {
        let v = self.env(None, lang, text, toks, q);
        &&& v.rules.len() <= u32::MAX && self.whitespace_binder.ok()
        &&& forall|i: int| 0 <= i < v.rules.len() ==> #[trigger] rule_ok(v, i)
        &&& forall|i: int| 0 <= i < v.rules.len() ==> #[trigger] rule_opens(v, i)
        &&& forall|i: int| 0 <= i < v.rules.len() ==> #[trigger] rule_text_ok(v, i)
        &&& solves(q.s, v.inp())
        &&& v.rules.len() > 0 && v.rules[0] is Pub && forall|i: int| !#[trigger] (q.need)(ExprRef(0)).contains(i)
    }
    /// the tree for these events
    pub open spec fn tree_of(&self, lang: &Language, text: Seq<u8>, toks: Seq<Token>, evs: Seq<Event>) -> BV {
        built(&Convertor { is_whitespace: &ws_of(*lang), whitespace_binder: &binder_of(evs[0]->Start_ty, self.whitespace_binder) }, evs, texts(text, toks)).b
    }

//@fn fall/parse/src/lib.rs ParserDefinition::parse
    pub fn parse(
        &self,
        prev: Option<(Cache, &[Event])>,
        text: Text,
        tokens: &[Token],
        lang: &Language,
        metrics: &Metrics,
        builder: &mut TreeBuilder,
        «Ghost(q): Ghost<Q>,»
    ) -> «(r:» Vec<Event> «)
        requires
            text.wf(), text.bounded(), text@.len() < 0x8000_0000, toks_tile(text@, tokens@), toks_pos(tokens@), self.ok(lang, text, tokens@, q),
            cache_ok(self.env(prev, lang, text, tokens@, q)),
            old(builder).bv() == empty_bv(), old(builder).ok(),
        ensures
            file_events(self.env(None, lang, text, tokens@, q), ExprRef(0)) == Some(r@),
            file_good(self.env(None, lang, text, tokens@, q), r@), r@.len() < 0x8000_0000,
            final(builder).bv() == self.tree_of(lang, text@, tokens@, r@),
            complete(*final(builder), text@)»
    {
        let g = Grammar {
            node_types: &self.node_types,
            rules: &self.syntactical_rules,
            start_rule: ExprRef(0),
        };
        «let ghost v0 = self.env(None, lang, text, tokens@, q);
        let ghost v = self.env(prev, lang, text, tokens@, q);
        proof { assert(rule_ok(v0, 0)); lemma_file_ok(v0, v, |ty: NodeType| lang.ws(ty)); lemma_lens_count(tokens@); }»
        let (events, ticks) = {
            parse(prev, g, lang, text, &tokens «, Ghost(q)»)
        };
        metrics.record("parsing ticks", ticks, "");
        let file_ty = match events[0] {
            Event::Start { ty, .. } => ty,
            _ => vpanic()
        };
        «proof {
            let c = Convertor { is_whitespace: &ws_of(*lang), whitespace_binder: &binder_of(file_ty, self.whitespace_binder) };
            let w = |ty: NodeType| lang.ws(ty);
            broadcast use axiom_ws_of;
            lemma_covers_fits(&c, v, w, raws(events@), 0, 0);
            assert(texts(text@, tokens@).skip(0) =~= texts(text@, tokens@));
        }»

        {
            convert(
                text,
                tokens,
                &events,
                &ty_ws(lang),
                &file_binder(file_ty, &self.whitespace_binder),
                builder,
            );
        };
        events
    }
//@end
}
pub open spec fn toks_pos(toks: Seq<Token>) -> bool { forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).len.0 > 0 }
pub open spec fn rule_same(v: Env, i: int) -> bool { rule_ok(v, i) && rule_opens(v, i) && rule_text_ok(v, i) }
/// the cache does not matter for what is right for a rule
pub proof fn lemma_rule_same(v0: Env, v: Env, i: int)
    requires
        v0.rules == v.rules, v0.tys == v.tys, v0.nw == v.nw, v0.q == v.q, v.inp() == v0.inp(),
        0 <= i < v0.rules.len(), rule_ok(v0, i), rule_opens(v0, i), rule_text_ok(v0, i),
    ensures rule_ok(v, i), rule_opens(v, i), rule_text_ok(v, i)
{
    let x = ExprRef(i as u32);
    match v.rules[i] {
        Expr::Or(parts) => { assert forall|k: int| 0 <= k < parts@.len() implies sub(v, x, #[trigger] parts@[k]) by { assert(sub(v0, x, parts@[k])); } }
        Expr::And(parts, commit) => { assert forall|k: int| 0 <= k < parts@.len() implies sub(v, x, #[trigger] parts@[k]) by { assert(sub(v0, x, parts@[k])); } }
        Expr::ContextualToken(ty, text) => {
            assert forall|a: int, e: int| 0 <= a <= e <= v.nw.len() && (#[trigger] v.inp().by_text(a, e, text@)).is_some() implies contiguous(v.inp(), a, v.inp().by_text(a, e, text@)->0 as nat) by {
                assert(v0.inp().by_text(a, e, text@).is_some());
            }
        }
        Expr::Pratt(t) => {
            assert forall|k: int| 0 <= k < t.atoms@.len() implies sub(v, x, #[trigger] t.atoms@[k]) by { assert(sub(v0, x, t.atoms@[k])); }
            assert forall|k: int| 0 <= k < t.prefixes@.len() implies #[trigger] prefix_ok(v, x, *t, k) by { assert(prefix_ok(v0, x, *t, k)); }
            assert forall|k: int| 0 <= k < t.infixes@.len() implies #[trigger] infix_ok(v, x, *t, k) by { assert(infix_ok(v0, x, *t, k)); }
            assert forall|k: int| 0 <= k < t.atoms@.len() implies opens(v, #[trigger] t.atoms@[k], false) by { assert(opens(v0, t.atoms@[k], false)); }
        }
        Expr::Call(y, args) => { assert forall|k: int| 0 <= k < args@.len() implies #[trigger] call_arg_ok(v, x, args@, k) by { assert(call_arg_ok(v0, x, args@, k)); } }
        Expr::PrevIs(ts) => { assert forall|k: int| 0 <= k < ts@.len() implies ty_ok(v, #[trigger] ts@[k]) by { assert(ty_ok(v0, ts@[k])); } }
        Expr::Inject(y, z) => { assert(opens(v0, y, true) && opens(v0, z, false)); assert(opens(v, y, true) && opens(v, z, false)); }
        _ => {}
    }
}
/// what is known about the grammar and the tokens is what the parser needs
pub proof fn lemma_file_ok(v0: Env, v: Env, w: spec_fn(NodeType) -> bool)
    requires
        v0.rules == v.rules, v0.tys == v.tys, v0.text == v.text, v0.tokens == v.tokens, v0.nw == v.nw, v0.q == v.q, cache_ok(v),
        v.text.wf(), v.text.bounded(), v.text@.len() < 0x8000_0000, toks_tile(v.text@, v.tokens), toks_pos(v.tokens), v.nw == non_ws(w, v.tokens, v.tokens.len() as int),
        v0.rules.len() <= u32::MAX,
        forall|i: int| 0 <= i < v0.rules.len() ==> #[trigger] rule_ok(v0, i),
        forall|i: int| 0 <= i < v0.rules.len() ==> #[trigger] rule_opens(v0, i),
        forall|i: int| 0 <= i < v0.rules.len() ==> #[trigger] rule_text_ok(v0, i),
        solves(v0.q.s, v0.inp()),
    ensures v.ok(), v.tokens.len() < 0x8000_0000, lens(v.tokens) < 0x8000_0000, v.inp() == v0.inp()
{
    assert(v.inp() == v0.inp());
    lemma_lens_count(v.tokens);
    lemma_non_ws(w, v.tokens, v.tokens.len() as int);
    assert forall|i: int| 0 <= i < v.nw.len() implies #[trigger] nw_ok(v, i) by {
        assert(nw_at(w, v.tokens, v.nw, i, v.tokens.len() as int));
        assert(bnd_at(v.text@, v.tokens, v.nw[i].1 as int));
    }
    assert forall|i: int| 0 <= i < v.rules.len() implies #[trigger] rule_same(v, i) by {
        assert(rule_ok(v0, i) && rule_opens(v0, i) && rule_text_ok(v0, i));
        lemma_rule_same(v0, v, i);
    }
    assert forall|i: int| 0 <= i < v.rules.len() implies #[trigger] rule_ok(v, i) by { assert(rule_same(v, i)); }
    assert forall|i: int| 0 <= i < v.rules.len() implies #[trigger] rule_opens(v, i) by { assert(rule_same(v, i)); }
    assert forall|i: int| 0 <= i < v.rules.len() implies #[trigger] rule_text_ok(v, i) by { assert(rule_same(v, i)); }
}

// ---- from text to tree -----------------------------------------------------------------------
/// what is known of a language made of a lexer and a grammar
pub open spec fn lang_ok(lang: &Language, l: &RegexLexer, p: &ParserDefinition, text: Text, q: Q) -> bool {
    l.ok() && text.wf() && text.bounded() && text@.len() < 0x8000_0000 && p.ok(lang, text, lex_spec(l, text@), q)
}
/// the tree of a text: a function of lexer, grammar and text alone
pub open spec fn text_tree(lang: &Language, l: &RegexLexer, p: &ParserDefinition, text: Text, q: Q) -> BV {
    let toks = lex_spec(l, text@);
    p.tree_of(lang, text@, toks, file_events(p.env(None, lang, text, toks, q), ExprRef(0))->0)
}
/// what is kept for parsing after an edit
pub open spec fn kept(d: IncrementalData, lang: &Language, l: &RegexLexer, p: &ParserDefinition, text: Text, q: Q) -> bool {
    d.tokens@ == lex_spec(l, text@) && file_events(p.env(None, lang, text, d.tokens@, q), ExprRef(0)) == Some(d.events@)
    && file_good(p.env(None, lang, text, d.tokens@, q), d.events@) && d.events@.len() < 0x8000_0000
}
//@rewrite1 pub fn parse ( ==> pub fn parse_text (
//@fn fall/parse/src/lib.rs parse ## as:parse_text C01 C02 C03
pub fn parse_text(
    lang: &Language,
    lexer_def: &RegexLexer,
    parser_def: &ParserDefinition,
    text: Text,
    metrics: &Metrics,
    builder: &mut TreeBuilder,
    «Ghost(q): Ghost<Q>,»
) -> «(r:» Option<Opaque> «)
    requires lang_ok(lang, lexer_def, parser_def, text, q), old(builder).bv() == empty_bv(), old(builder).ok()
    ensures
        r matches Some(d) && kept(d.data(), lang, lexer_def, parser_def, text, q),
        final(builder).bv() == text_tree(lang, lexer_def, parser_def, text, q),
        complete(*final(builder), text@)»
{
    «proof { lemma_lex_tile(lexer_def, text@); }»
    let tokens: Vec<Token> = {
        lex(lexer_def, text)
    };
    metrics.record("relexed region", text.len().utf8_len() as u64, "");

    let events = parser_def.parse(None, text, &tokens, lang, metrics, builder «, Ghost(q)»);
    let incremental_data = IncrementalData { tokens, events };
    Some(opaque(incremental_data))
}
//@end

/// what has to hold for a tree to be updated.  The lexer looks at one character after a token, errors are not
/// spaces, contextual tokens are not made of what the lexer does not know, and what a cached rule gives without
/// an error depends on the tokens it takes and nothing else
pub open spec fn edit_ok(lang: &Language, l: &RegexLexer, p: &ParserDefinition, old: Text, new: Text, ops: Seq<TextEditOp>, q1: Q, q2: Q) -> bool {
    &&& lang_ok(lang, l, p, old, q1) && lang_ok(lang, l, p, new, q2)
    &&& ops_ok(ops, old@.len() as int) && ops_bnd(ops, old@) && new@ == ops_text(ops, old@)
    &&& lookahead1(l) && !lang.ws(ERROR) && moves(p.env(None, lang, old, lex_spec(l, old@), q1), p.env(None, lang, new, lex_spec(l, new@), q2))
}
pub proof fn lemma_moves_same(v1: Env, v2: Env, v3: Env)
    requires moves(v1, v2), v2.rules == v3.rules, v2.tys == v3.tys, v2.nw == v3.nw, v2.q == v3.q, v2.inp() == v3.inp()
    ensures moves(v1, v3)
{
    assert forall|key: u32, st: St, e: int, p: int, b: int, ev: Seq<Event>, prev: Option<NodeType>, repl: Option<NodeTypeRef>|
        #[trigger] seg_of(v1.inp(), key, st, e, p, b, ev, prev, repl) && clean(ev) implies local_at(v1, v3, key, p, b, ev, prev, repl) by
    {
        assert(local_at(v1, v2, key, p, b, ev, prev, repl));
        assert forall|st: St, a: int, e: int| st_ok(v3, st) && same_toks(v1.inp(), v3.inp(), p, a, b - p) && a + (b - p) <= e <= v3.nw.len() implies
            (#[trigger] (v3.q.s)(Item::E(ExprRef(key)), st.at(None, None), a, e)) == Some(Out { res: Some(a + (b - p)), ev, prev, repl }) by
        {
            assert(st_ok(v2, st)) by { assert forall|i: int| 0 <= i < 16 implies #[trigger] arg_ok(v2, st.args, i) by { assert(arg_ok(v3, st.args, i)); } }
        }
    }
}
//@fn fall/parse/src/lib.rs reparse
pub fn reparse(
    lang: &Language,
    lexer_def: &RegexLexer,
    parser_def: &ParserDefinition,
    incremental_data: &Opaque,
    edit: &TextEdit,
    new_text: Text,
    metrics: &Metrics,
    builder: &mut TreeBuilder,
    «Ghost(before): Ghost<Text>, Ghost(q1): Ghost<Q>, Ghost(q): Ghost<Q>,»
) -> «(r:» Option<Opaque> «)
    requires
        edit_ok(lang, lexer_def, parser_def, before, new_text, edit.ops@, q1, q), kept(incremental_data.data(), lang, lexer_def, parser_def, before, q1),
        old(builder).bv() == empty_bv(), old(builder).ok(),
    ensures
        r matches Some(d) && kept(d.data(), lang, lexer_def, parser_def, new_text, q),
        final(builder).bv() == text_tree(lang, lexer_def, parser_def, new_text, q),
        complete(*final(builder), new_text@)»
{
    let incremental_data: &IncrementalData = downcast(incremental_data);
    «proof { assert(relex_pre(lexer_def, incremental_data.tokens@, edit.ops@, new_text@, before@)); }»
    let (tokens, relexed_region) = {
        relex(lexer_def, &incremental_data.tokens, edit, new_text)
    };
    metrics.record("relexed region", relexed_region as u64, "");
    «let ghost w = |ty: NodeType| lang.ws(ty);
    let ghost v1 = parser_def.env(None, lang, before, incremental_data.tokens@, q1);
    proof {
        lemma_lex_tile(lexer_def, before@);
        lemma_lex_tile(lexer_def, new_text@);
        assert(salvageable(v1, w, incremental_data.events@));
    }»

    let salvaged = salvage_segments(
        &incremental_data.events,
        &incremental_data.tokens,
        &tok_ws(lang),
        edit,
        «Ghost(v1), Ghost(before@), Ghost(w),»
    );
    let prev = Some((salvaged, incremental_data.events.as_slice()));
    «proof {
        let v2 = parser_def.env(None, lang, new_text, tokens@, q);
        let v3 = parser_def.env(prev, lang, new_text, tokens@, q);
        assert(v2.inp() == v3.inp());
        lemma_moves_same(v1, v2, v3);
        lemma_cache_ok(lexer_def, v1, v3, w, incremental_data.events@, edit.ops@);
    }»
    let events = parser_def.parse(prev, new_text, &tokens, lang, metrics, builder «, Ghost(q)»);
    let incremental_data = IncrementalData { tokens, events };
    Some(opaque(incremental_data))
}
//@end

// ---- languages and files ---------------------------------------------------------------------
/// the lexer and the grammar of a language, and what the grammar means on a text
pub uninterp spec fn lexer_of(lang: Language) -> RegexLexer;
pub uninterp spec fn def_of(lang: Language) -> ParserDefinition;
pub uninterp spec fn q_of(lang: Language, text: Seq<u8>) -> Q;
/// `Arc<dyn LanguageImpl>`: the generated implementation calls `parse` with its own lexer and grammar
#[verifier::external_body]
pub struct Imp { x: u8 }
pub uninterp spec fn lang_of(i: Imp) -> Language;
impl Imp {
    #[verifier::external_body]
    pub fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> (r: Option<Opaque>)
        requires lang_text_ok(lang_of(*self), text), old(builder).bv() == empty_bv(), old(builder).ok()
        ensures
            r matches Some(d) && kept_of(d.data(), lang_of(*self), text),
            final(builder).bv() == tree_for(lang_of(*self), text),
            complete(*final(builder), text@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reparse(&self, incremental_data: &Opaque, edit: &TextEdit, new_text: Text, metrics: &Metrics, builder: &mut TreeBuilder, Ghost(before): Ghost<Text>) -> (r: Option<Opaque>)
        requires lang_edit_ok(lang_of(*self), before, new_text, edit.ops@), kept_of(incremental_data.data(), lang_of(*self), before), old(builder).bv() == empty_bv(), old(builder).ok()
        ensures
            r matches Some(d) && kept_of(d.data(), lang_of(*self), new_text),
            final(builder).bv() == tree_for(lang_of(*self), new_text),
            complete(*final(builder), new_text@),
    { unimplemented!() }
}
impl Language {
    #[verifier::external_body]
    pub fn imp__(&self) -> (r: &Imp) ensures lang_of(*r) == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Language) ensures r == *self { unimplemented!() }
}
impl Metrics {
    #[verifier::external_body]
    pub fn new() -> Metrics { unimplemented!() }
}
pub open spec fn lang_text_ok(lang: Language, text: Text) -> bool { lang_ok(&lang, &lexer_of(lang), &def_of(lang), text, q_of(lang, text@)) }
pub open spec fn lang_edit_ok(lang: Language, old: Text, new: Text, ops: Seq<TextEditOp>) -> bool {
    edit_ok(&lang, &lexer_of(lang), &def_of(lang), old, new, ops, q_of(lang, old@), q_of(lang, new@))
}
/// a file as it comes from parsing: the tree is the tree of the text, and what is kept fits it
pub open spec fn parsed(f: File) -> bool {
    f.wf() && f.t() == tree_for(f.imp.lang, f.imp.text.whole()).ns && (f.incremental_data matches Some(d) ==> kept_of(d.data(), f.imp.lang, f.imp.text.whole()))
}
/// the file can be edited, and has the text `new` afterwards
pub open spec fn editable(f: File, ops: Seq<TextEditOp>) -> bool {
    &&& ops_ok(ops, f.imp.text@.len() as int) && ops_bnd(ops, f.imp.text@)
    &&& forall|new: TextBuf| #[trigger] new.data@ == ops_text(ops, f.imp.text@) ==> new.wf() && lang_text_ok(f.imp.lang, new.whole()) && lang_edit_ok(f.imp.lang, f.imp.text.whole(), new.whole(), ops)
}
pub open spec fn tree_for(lang: Language, text: Text) -> BV { text_tree(&lang, &lexer_of(lang), &def_of(lang), text, q_of(lang, text@)) }
pub open spec fn kept_of(d: IncrementalData, lang: Language, text: Text) -> bool { kept(d, &lang, &lexer_of(lang), &def_of(lang), text, q_of(lang, text@)) }

pub proof fn lemma_empty_bv(b: &TreeBuilder)
    requires b.nodes@.len() == 0, b.in_progress@.len() == 0, b.pos.0 == 0
    ensures b.bv() == empty_bv()
{
    assert(b.bv().ns =~= empty_bv().ns);
    assert(b.bv().stack =~= empty_bv().stack);
}
/// std: `impl<T> From<T> for T` returns its argument
pub axiom fn axiom_into_self(t: TextBuf)
    ensures
        call_requires(<TextBuf as Into<TextBuf>>::into, (t,)),
        forall|r: TextBuf| #[trigger] call_ensures(<TextBuf as Into<TextBuf>>::into, (t,), r) ==> r == t;

impl Language {
//@rewrite1 pub fn parse < T : Into < TextBuf > > ( & self , text : T ) ==> pub fn parse ( & self , text : TextBuf )
//@rewrite1 text . into ( ) ==> text
//@rewrite1 self . imp . ==> self . imp__ ( ) .
//@fn fall/tree/src/lang.rs Language::parse ## C01 C02
    pub fn parse(&self, text: TextBuf) -> «(r:» File «)
        requires text.wf(), lang_text_ok(*self, text.whole())
        ensures r.wf(), r.imp.text@ == text@, r.imp.lang == *self, r.t() == tree_for(*self, text.whole()).ns, parsed(r)» {
        let text: TextBuf = text;
        let metrics = Metrics::new();
        let mut builder = TreeBuilder::new();
        «proof { lemma_empty_bv(&builder); axiom_into_self(text); }»
        let incremental = self.imp__().parse(text.as_text(), &metrics, &mut builder);
        File::new(self.clone(), text, metrics, incremental, builder)
    }
//@end
//@rewrite1 self . imp . ==> self . imp__ ( ) .
//@fn fall/tree/src/lang.rs Language::reparse
    pub fn reparse(&self, file: &File, edit: &TextEdit) -> «(r:» File «)
        requires parsed(*file), file.imp.lang == *self, editable(*file, edit.ops@)
        ensures r.wf(), r.imp.text@ == ops_text(edit.ops@, file.imp.text@), r.imp.lang == *self, r.t() == tree_for(*self, r.imp.text.whole()).ns, parsed(r)» {
        let new_text = edit.apply(file.text());
        let metrics = Metrics::new();
        let mut builder = TreeBuilder::new();
        «proof { lemma_empty_bv(&builder); axiom_into_self(new_text); }»
        let incremental = if let Some(incremental) = file.incremental_data() {
            self.imp__().reparse(incremental, edit, new_text.as_text(), &metrics, &mut builder «, Ghost(file.imp.text.whole())»)
        } else {
            self.imp__().parse(new_text.as_text(), &metrics, &mut builder)
        };
        File::new(self.clone(), new_text, metrics, incremental, builder)
    }
//@end
}
impl File {
//@rewrite1 r . as_ref ( ) ==> r
//@fn fall/tree/src/node/mod.rs File::incremental_data
    pub fn incremental_data(&self) -> «(r:» Option<&Opaque> «) ensures r == (match self.incremental_data { Some(d) => Some(&d), None => None })» {
        match self.incremental_data.as_ref() {
            Some(v__0) => Some({
                let r = v__0;
                r
            }),
            None => None
        }
    }
//@end
//@fn fall/tree/src/node/mod.rs File::edit
    pub fn edit(&self, edit: &TextEdit) -> «(r:» File «)
        requires parsed(*self), editable(*self, edit.ops@)
        ensures r.wf(), r.imp.text@ == ops_text(edit.ops@, self.imp.text@), r.imp.lang == self.imp.lang, r.t() == tree_for(self.imp.lang, r.imp.text.whole()).ns, parsed(r)» {
        self.language().reparse(self, edit)
    }
//@end
}

} // verus!
} // mod
