// What the parser does for each expression: fall/parse/src/syn_engine/expr.rs
//@owner C12 C13 C14
verus! {

/// an expression can be tried
pub open spec fn ready(p: &Parser, t: Pos) -> bool { p.wf() && p.pos_ok(t) && st_ok(p.env(), p.st()) }
pub open spec fn sem(p: &Parser, x: Item, t: Pos) -> Option<Out> { (p.env().q.s)(x, p.st(), t.0 as int, t.1 as int) }
/// the same, but nothing is produced
pub open spec fn looked(p0: Parser, p1: Parser, o: Option<Out>, t: Pos, r: Option<Pos>) -> bool {
    &&& p1.same(&p0)
    &&& o.is_some() && p1.prev == o->0.prev && p1.replacement == o->0.repl && repl_ok(p1.env(), p1.replacement) && p1.events@ =~= p0.events@
    &&& match r { Some(q) => o->0.res == Some(q.0 as int) && q.1 == t.1 && t.0 <= q.0 <= q.1, None => o->0.res.is_none() }
}
/// what is in the node is good as well
pub open spec fn node_good(p: &Parser, o: Option<Out>, t: Pos, r: Option<Pos>) -> bool {
    !p.predicate_mode ==> (r matches Some(q) ==> o->0.ev.len() >= 2 && good(p.env().inp(), o->0.ev.subrange(1, o->0.ev.len() - 1), t.0 as int, q.0 as int))
}

//@fn fall/parse/src/syn_engine/expr.rs parse_expr
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_expr(p: &mut Parser, expr: ExprRef, tokens: Pos) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), expr, old(p).args@)
    ensures tried(*old(p), *final(p), sem(old(p), Item::E(expr), tokens), tokens, r), r is None ==> final(p).events@ == old(p).events@,
        old(p).grammar.rules@[expr.0 as int] is Pub ==> node_good(old(p), sem(old(p), Item::E(expr), tokens), tokens, r)»
{
    p.tick();
    let mark = p.mark();
    «proof { lemma_solves(p.env().q.s, p.env().inp(), Item::E(expr), p.st(), tokens.0 as int, tokens.1 as int); }»
    let result = parse_expr_inner(p, expr, tokens);
    if result.is_none() {
        p.rollback(mark);
    }
    result
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_expr_pred
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_expr_pred(p: &mut Parser, expr: ExprRef, tokens: Pos) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), expr, old(p).args@)
    ensures looked(*old(p), *final(p), sem(old(p), Item::E(expr), tokens), tokens, r)»
{
    let old_mode = p.predicate_mode;
    p.predicate_mode = true;
    let result = parse_expr(p, expr, tokens);
    p.predicate_mode = old_mode;
    result
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_expr_inner
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_expr_inner(p: &mut Parser, expr: ExprRef, tokens: Pos) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), expr, old(p).args@)
    ensures tried(*old(p), *final(p), expr_step(old(p).env().q.s, old(p).env().inp(), expr, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r),
        old(p).grammar.rules@[expr.0 as int] is Pub ==> node_good(old(p), expr_step(old(p).env().q.s, old(p).env().inp(), expr, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «let ghost v = p.env();
    proof {
        assert(rule_ok(v, expr.0 as int));
        assert(rule_opens(v, expr.0 as int));
        assert(rule_text_ok(v, expr.0 as int));
        assert(ExprRef(expr.0 as u32) == expr);
    }»
    let grammar = &*p.grammar;
    match grammar[expr] {
        Expr::Pub { ty, body, replaceable } => parse_pub(p, tokens, ty, body, replaceable),
        Expr::PubReplace { ty, body } => parse_pub_replace(p, tokens, ty, body),
        Expr::Or(ref parts) => parse_or(p, parts, tokens),
        Expr::And(ref parts, commit) => parse_and(p, tokens, &*parts, commit),
        Expr::Token(ty) => parse_token(p, tokens, ty),
        Expr::ContextualToken(ty, ref text) => parse_contextual_token(p, tokens, ty, text),
        Expr::Opt(body) => parse_opt(p, tokens, body),
        Expr::Not(e) => parse_not(p, tokens, e),
        Expr::Eof => parse_eof(p, tokens),
        Expr::Any => match p.bump(tokens) {
            Some(v__0) => Some({
                let _ty = v__0.0;
                let ts = v__0.1;
                ts
            }),
            None => None
        },
        Expr::Layer(l, e) => parse_layer(p, tokens, l, e),
        Expr::Rep(body) => parse_rep(p, tokens, body),
        Expr::WithSkip(first, body) => parse_with_skip(p, tokens, first, body),
        Expr::Pratt(ref table) => «{ proof { lemma_table(v, expr, **table, p.args@); }» parse_pratt(p, table, tokens) «}»,
        Expr::Enter(ctx, e) => parse_enter(p, tokens, ctx, e),
        Expr::Exit(ctx, e) => parse_exit(p, tokens, ctx, e),
        Expr::IsIn(ctx) => parse_is_in(p, tokens, ctx),
        Expr::Call(body, ref args) => «{ proof { lemma_call(v, expr, body, args@, p.args@); }» parse_call(p, tokens, body, &*args) «}»,
        Expr::Var(i) => parse_var(p, tokens, i),
        Expr::PrevIs(ref ts) => parse_prev_is(p, tokens, ts),
        Expr::Inject(prefix, body) => parse_inject(p, tokens, prefix, body),
        Expr::Cached(body) => parse_cached(p, body, tokens),
    }
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_pub
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_pub<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    ty_idx: NodeTypeRef, body: ExprRef, replaceable: bool,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), body, old(p).args@), ty_ok(old(p).env(), ty_idx),
    ensures tried(*old(p), *final(p), pub_step(old(p).env().q.s, old(p).env().inp(), ty_idx, body, replaceable, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r), node_good(old(p), pub_step(old(p).env().q.s, old(p).env().inp(), ty_idx, body, replaceable, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «let ghost g = p.env().inp();
    let ghost st1 = if replaceable { p.st().at(p.prev, None) } else { p.st() };
    let ghost o = (p.env().q.s)(Item::E(body), st1, tokens.0 as int, tokens.1 as int);»
    if replaceable {
        p.replacement = None;
    }
    let mark = p.start(ty_idx);
    let ts = parse_expr(p, body, tokens)?;
    if let (true, Some(ty)) = (replaceable, p.replacement) {
        p.replacement = None;
        p.replace(mark, ty)
    };
    p.finish();
    p.prev = Some(p[ty_idx]);
    «proof {
        let ty = if replaceable && o->0.repl.is_some() { g.ty(o->0.repl->0) } else { g.ty(ty_idx) };
        if !p.predicate_mode {
            lemma_good_node(g, ty, o->0.ev, tokens.0 as int, ts.0 as int);
            assert(p.events@ =~= old(p).events@ + node(ty, o->0.ev));
            assert(node(ty, o->0.ev).subrange(1, 1 + o->0.ev.len() as int) =~= o->0.ev);
        }
    }»
    Some(ts)
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_pub_replace
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_pub_replace<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    ty_idx: NodeTypeRef, body: ExprRef
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), body, old(p).args@), ty_ok(old(p).env(), ty_idx),
    ensures tried(*old(p), *final(p), pub_replace_step(old(p).env().q.s, old(p).env().inp(), ty_idx, body, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    let ts = parse_expr(p, body, tokens)?;
    p.replacement = Some(ty_idx);
    Some(ts)
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_or
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_or<'t, 'g>(
    p: &mut Parser<'g>,
    options: &'g [ExprRef],
    tokens: Pos
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), all_usable(old(p).env(), options@, old(p).args@)
    ensures tried(*old(p), *final(p), sem(old(p), Item::Or(options@, 0), tokens), tokens, r), r is None ==> final(p).events@ == old(p).events@»
{
    {
        let mut r__0 «: Option<Pos>» = None;
        let mut i__0: usize = 0;
        while i__0 < options.len()
        «invariant_except_break
            r__0 is None
         invariant
            ready(old(p), tokens), p.same(old(p)), repl_ok(p.env(), p.replacement), all_usable(old(p).env(), options@, old(p).args@), i__0 <= options@.len(),
            r__0 is None ==> p.events@ == old(p).events@ && sem(p, Item::Or(options@, i__0 as int), tokens) == sem(old(p), Item::Or(options@, 0), tokens),
         ensures
            r__0 is Some ==> tried(*old(p), *p, sem(old(p), Item::Or(options@, 0), tokens), tokens, r__0), r__0 is None ==> i__0 == options@.len()»
        {
            let j__0 = i__0;
            i__0 = i__0 + 1;
            let opt = options[j__0];
            «proof { lemma_solves(p.env().q.s, p.env().inp(), Item::Or(options@, j__0 as int), p.st(), tokens.0 as int, tokens.1 as int); assert(usable(p.env(), options@[j__0 as int], p.args@)); }
            let ghost o = sem(p, Item::E(opt), tokens);
            let ghost st = p.st();»
            if let Some(y__1) = parse_expr(p, opt, tokens) {
                r__0 = Some(y__1);
                break;
            }
            «proof { assert(p.st() == st.then(o->0)); }»
        }
        «proof { if r__0 is None { lemma_solves(p.env().q.s, p.env().inp(), Item::Or(options@, options@.len() as int), p.st(), tokens.0 as int, tokens.1 as int); } }»
        r__0
    }
}
//@end
/// what the parts of a sequence from the i-th on give, after the others
pub open spec fn after(ev: Seq<Event>, o: Option<Out>) -> Option<Out> {
    match o { None => None, Some(p) => match p.res { None => Some(Out { ev: Seq::empty(), ..p }), Some(_) => Some(Out { ev: ev + p.ev, ..p }) } }
}
//@fn fall/parse/src/syn_engine/expr.rs parse_and
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_and<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    parts: &'g [ExprRef], commit: Option<usize>,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), all_usable(old(p).env(), parts@, old(p).args@), commit matches Some(c) ==> c <= parts@.len()
    ensures tried(*old(p), *final(p), sem(old(p), Item::And(parts@, match commit { Some(c) => c as int, None => parts@.len() as int }, 0), tokens), tokens, r)»
{
    «let ghost g = p.env().inp();
    let ghost s = p.env().q.s;
    let ghost c = match commit { Some(c) => c as int, None => parts@.len() as int };
    let ghost o0 = sem(old(p), Item::And(parts@, c, 0), tokens);
    let ghost a = tokens.0 as int;
    let ghost t0 = tokens;
    let ghost mut acc = Seq::<Event>::empty();
    proof {
        lemma_good_empty(g, a);
        lemma_solves(s, g, Item::And(parts@, c, 0), p.st(), a, tokens.1 as int);
        if o0.is_some() { assert(acc + o0->0.ev =~= o0->0.ev); }
    }»
    let mut tokens = tokens;
    let mut consumed «: usize» = 0;
    {
        let mut i__0: usize = 0;
        while i__0 < parts.len()
        «invariant_except_break
            i__0 == consumed, o0 == after(acc, sem(p, Item::And(parts@, c, consumed as int), tokens)),
         invariant
            ready(old(p), t0), p.same(old(p)), repl_ok(p.env(), p.replacement), all_usable(old(p).env(), parts@, old(p).args@), consumed <= i__0 <= parts@.len(),
            c == (match commit { Some(c) => c as int, None => parts@.len() as int }), g == p.env().inp(), s == p.env().q.s, p.pos_ok(tokens), t0.0 <= tokens.0, t0.1 == tokens.1, a == t0.0,
            p.events@ =~= old(p).events@ + old(p).emitted(acc), !p.predicate_mode ==> good(g, acc, a, tokens.0 as int),
         ensures
            consumed < parts@.len() ==> o0 == after(acc, if consumed < c { fail(p.st()) } else { done(p.st(), tokens.0 as int, err_node()) }),
            consumed == parts@.len() ==> o0 == after(acc, sem(p, Item::And(parts@, c, consumed as int), tokens))»
        {
            let j__0 = i__0;
            i__0 = i__0 + 1;
            let part = parts[j__0];
            «proof { lemma_solves(s, g, Item::And(parts@, c, j__0 as int), p.st(), tokens.0 as int, tokens.1 as int); assert(usable(p.env(), parts@[j__0 as int], p.args@)); }
            let ghost o = sem(p, Item::E(part), tokens);
            let ghost st = p.st();
            let ghost b = tokens.0 as int;»
            if let Some(ts) = parse_expr(p, part, tokens) {
                consumed += 1;
                tokens = ts;
                «proof {
                    assert(p.st() == st.then(o->0));
                    if !p.predicate_mode { lemma_good_concat(g, acc, o->0.ev, a, b, ts.0 as int); }
                    let rest = sem(p, Item::And(parts@, c, consumed as int), tokens);
                    if rest.is_some() { assert(acc + (o->0.ev + rest->0.ev) =~= (acc + o->0.ev) + rest->0.ev); }
                    acc = acc + o->0.ev;
                }»
            } else {
                «proof { assert(p.st() == st.then(o->0)); }»
                break;
            }
        }
        «proof {
            if consumed == parts@.len() { lemma_solves(s, g, Item::And(parts@, c, parts@.len() as int), p.st(), tokens.0 as int, tokens.1 as int); }
        }»
    }
    if consumed < commit.unwrap_or(parts.len()) {
        return None;
    }
    if consumed < parts.len() {
        p.start_error();
        p.finish()
    }
    «proof {
        let tail = if consumed < parts@.len() { err_node() } else { Seq::empty() };
        lemma_good_empty(g, tokens.0 as int);
        lemma_good_err(g, tokens.0 as int);
        if !p.predicate_mode { lemma_good_concat(g, acc, tail, a, tokens.0 as int, tokens.0 as int); }
    }»
    Some(tokens)
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_token
pub fn parse_token<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    ty_idx: NodeTypeRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), ty_ok(old(p).env(), ty_idx)
    ensures tried(*old(p), *final(p), token_step(old(p).env().inp(), ty_idx, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    let (ty, ts) = p.bump(tokens)?;
    if p[ty_idx] != ty {
        return None;
    }
    Some(ts)
}
//@end
//@rewrite1 & str ==> & Str
//@fn fall/parse/src/syn_engine/expr.rs parse_contextual_token
pub fn parse_contextual_token<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    ty_idx: NodeTypeRef, text: &Str,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), ty_ok(old(p).env(), ty_idx), text@.len() < 65536, contextual_ok(old(p).env(), text@), is_contextual(old(p).env().inp(), text@)
    ensures tried(*old(p), *final(p), contextual_step(old(p).env().inp(), ty_idx, text@, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    p.bump_by_text(tokens, text, ty_idx)
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_opt
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_opt<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    body: ExprRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), body, old(p).args@)
    ensures tried(*old(p), *final(p), opt_step(old(p).env().q.s, body, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «proof { lemma_good_empty(p.env().inp(), tokens.0 as int); }»
    Some(parse_expr(p, body, tokens).unwrap_or(tokens))
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_not
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_not<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    e: ExprRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), e, old(p).args@)
    ensures tried(*old(p), *final(p), not_step(old(p).env().q.s, e, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «proof { lemma_good_empty(p.env().inp(), tokens.0 as int); }»
    match parse_expr_pred(p, e, tokens) {
        None => Some(tokens),
        Some(_) => None,
    }
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_eof
pub fn parse_eof<'g>(
    p__0: &mut Parser<'g>, tokens: Pos,
) -> «(r:» Option<Pos> «)
    requires ready(old(p__0), tokens)
    ensures tried(*old(p__0), *final(p__0), eof_step(old(p__0).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «proof { lemma_good_empty(p__0.env().inp(), tokens.0 as int); }»
    if tokens.is_empty() { Some(tokens) } else { None }
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_layer
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_layer<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    l: ExprRef, e: ExprRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), l, old(p).args@), usable(old(p).env(), e, old(p).args@)
    ensures tried(*old(p), *final(p), layer_step(old(p).env().q.s, old(p).env().inp(), l, e, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «let ghost g = p.env().inp();»
    let rest = parse_expr_pred(p, l, tokens)?;
    let layer = p.cut_suffix(tokens, rest);
    «let ghost o = sem(p, Item::E(e), layer);
    let ghost a = tokens.0 as int;»
    let mut leftovers = parse_expr(p, e, layer).unwrap_or(layer);
    «let ghost c = leftovers.0 as int;
    let ghost mid = p.events@;
    proof { lemma_good_skipped(g, c, rest.0 as int); lemma_good_empty(g, a); }»

    if !leftovers.is_empty() {
        p.start_error();
        loop
        «invariant_except_break p.pos_ok(leftovers),
         invariant p.wf(), p.same(old(p)), repl_ok(p.env(), p.replacement), p.prev == o->0.prev, p.replacement == o->0.repl, c <= leftovers.0 <= rest.0, leftovers.1 == rest.0, g == p.env().inp(),
            p.events@ =~= mid + p.emitted(seq![open_ev(ERROR)] + g.tokens(c, leftovers.0 as int)),
         ensures leftovers.0 == rest.0»
        {
            if let Some((_, ts)) = p.bump(leftovers) {
                «proof { assert(g.tokens(c, leftovers.0 as int) + seq![g.token(leftovers.0 as int)] =~= g.tokens(c, ts.0 as int)); }»
                leftovers = ts;
            } else {
                break;
            }
        }
        p.finish();
        «proof { assert(p.events@ =~= mid + p.emitted(g.skipped(c, rest.0 as int))); }»
    }
    «proof {
        if !p.predicate_mode { lemma_good_concat(g, if o->0.res.is_some() { o->0.ev } else { Seq::empty() }, g.skipped(c, rest.0 as int), a, c, rest.0 as int); }
        assert(Seq::<Event>::empty() + g.skipped(c, rest.0 as int) =~= g.skipped(c, rest.0 as int));
    }»

    Some(rest)
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_rep
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_rep<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    body: ExprRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), body, old(p).args@)
    ensures tried(*old(p), *final(p), sem(old(p), Item::Rep(body), tokens), tokens, r)»
{
    «let ghost g = p.env().inp();
    let ghost s = p.env().q.s;
    let ghost t0 = tokens;
    let ghost mut acc = Seq::<Event>::empty();
    let ghost o0 = sem(old(p), Item::Rep(body), tokens);
    proof { lemma_good_empty(g, tokens.0 as int); }»
    let mut tokens = tokens;
    loop
    «invariant_except_break
        o0 == (match sem(p, Item::Rep(body), tokens) { None => None, Some(q) => Some(Out { ev: acc + q.ev, ..q }) }),
     invariant
        ready(old(p), t0), p.same(old(p)), repl_ok(p.env(), p.replacement), usable(p.env(), body, p.args@), g == p.env().inp(), s == p.env().q.s, p.pos_ok(tokens), t0.0 <= tokens.0, t0.1 == tokens.1,
        p.events@ =~= old(p).events@ + old(p).emitted(acc), !p.predicate_mode ==> good(g, acc, t0.0 as int, tokens.0 as int),
     ensures o0 == done(p.st(), tokens.0 as int, acc)»
    {
        «proof { lemma_solves(s, g, Item::Rep(body), p.st(), tokens.0 as int, tokens.1 as int); }
        let ghost o = sem(p, Item::E(body), tokens);
        let ghost st = p.st();
        let ghost b = tokens.0 as int;»
        if let Some(ts) = parse_expr(p, body, tokens) {
            tokens = ts;
            «proof {
                assert(p.st() == st.then(o->0));
                if !p.predicate_mode { lemma_good_concat(g, acc, o->0.ev, t0.0 as int, b, ts.0 as int); }
                let rest = sem(p, Item::Rep(body), tokens);
                if rest.is_some() { assert(acc + (o->0.ev + rest->0.ev) =~= (acc + o->0.ev) + rest->0.ev); }
                acc = acc + o->0.ev;
            }»
        } else {
            «proof { assert(p.st() == st.then(o->0)); assert(acc + Seq::<Event>::empty() =~= acc); }»
            break;
        }
    }
    Some(tokens)
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_with_skip
«#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]»
pub fn parse_with_skip<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    first: ExprRef, body: ExprRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), first, old(p).args@), usable(old(p).env(), body, old(p).args@)
    ensures tried(*old(p), *final(p), sem(old(p), Item::Skip(first, body, tokens.0 as int), tokens), tokens, r)»
{
    «let ghost g = p.env().inp();
    let ghost s = p.env().q.s;
    let ghost t0 = tokens;
    let ghost a0 = tokens.0 as int;
    let ghost o0 = sem(old(p), Item::Skip(first, body, a0), tokens);»
    let mut skipped = false;
    let mut tokens = tokens;
    loop
    «invariant
        ready(old(p), t0), p.same(old(p)), repl_ok(p.env(), p.replacement), usable(p.env(), first, p.args@), usable(p.env(), body, p.args@), g == p.env().inp(), s == p.env().q.s, p.pos_ok(tokens), t0.0 <= tokens.0, t0.1 == tokens.1, a0 == t0.0,
        o0 == sem(p, Item::Skip(first, body, a0), tokens), o0 == sem(old(p), Item::Skip(first, body, a0), t0),
        skipped == (a0 < tokens.0),
        p.events@ =~= old(p).events@ + old(p).emitted(if skipped { seq![open_ev(ERROR)] + g.tokens(a0, tokens.0 as int) } else { Seq::empty() })»
    {
        if skipped {
            p.finish();
        }
        «proof {
            lemma_solves(s, g, Item::Skip(first, body, a0), p.st(), tokens.0 as int, tokens.1 as int);
            lemma_good_skipped(g, a0, tokens.0 as int);
            assert(p.events@ =~= old(p).events@ + old(p).emitted(g.skipped(a0, tokens.0 as int)));
        }
        let ghost p1 = *p;
        let ghost f = sem(p, Item::E(first), tokens);
        let ghost o = s(Item::E(body), p.st().then(f->0), tokens.0 as int, tokens.1 as int);»
        match parse_expr_pred(p, first, tokens) {
            Some(_) => «{ assert(p.st() == p1.st().then(f->0));» if let Some(ts) = parse_expr(p, body, tokens) {
                «proof { if !p.predicate_mode { lemma_good_concat(g, g.skipped(a0, tokens.0 as int), o->0.ev, a0, tokens.0 as int, ts.0 as int); } }»
                return Some(ts);
            } «}»
            None => {}
        }
        «proof {
            assert(p.events@ =~= p1.events@);
            assert(o0 == skip_on(s, first, body, a0, p.st(), tokens.0 as int, tokens.1 as int)) by {
                if f->0.res.is_some() { assert(p.st() == p1.st().then(f->0).then(o->0)); } else { assert(p.st() == p1.st().then(f->0)); }
            }
        }»
        if skipped {
            p.reopen()
        } else {
            p.start_error()
        }
        skipped = true;
        «proof {
            assert(p.events@ =~= old(p).events@ + old(p).emitted(seq![open_ev(ERROR)] + g.tokens(a0, tokens.0 as int)));
            assert(g.tokens(a0, tokens.0 as int) + seq![g.token(tokens.0 as int)] =~= g.tokens(a0, tokens.0 + 1));
        }
        let ghost st2 = p.st();»
        match p.bump(tokens) {
            None => return None,
            Some((_, ts)) => tokens = ts,
        }
        «proof { assert(p.st() == st2); }»
    }
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_enter
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_enter<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    ctx: Context, e: ExprRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), e, old(p).args@), ctx.0 < 16
    ensures tried(*old(p), *final(p), enter_step(old(p).env().q.s, ctx.0 as int, true, e, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «let ghost p0 = *p;»
    let idx = ctx.0 as usize;
    let old = p.contexts[idx];
    p.contexts[idx] = true;
    «proof { assert(p.st() == (St { ctx: p0.contexts@.update(ctx.0 as int, true), ..p0.st() })); }»
    let result = parse_expr(p, e, tokens);
    p.contexts[idx] = old;
    «proof { assert(p.contexts@ =~= p0.contexts@); }»
    result
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_exit
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_exit<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    ctx: Context, e: ExprRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), usable(old(p).env(), e, old(p).args@), ctx.0 < 16
    ensures tried(*old(p), *final(p), enter_step(old(p).env().q.s, ctx.0 as int, false, e, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «let ghost p0 = *p;»
    let idx = ctx.0 as usize;
    let old = p.contexts[idx];
    p.contexts[idx] = false;
    «proof { assert(p.st() == (St { ctx: p0.contexts@.update(ctx.0 as int, false), ..p0.st() })); }»
    let result = parse_expr(p, e, tokens);
    p.contexts[idx] = old;
    «proof { assert(p.contexts@ =~= p0.contexts@); }»
    result
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_is_in
pub fn parse_is_in<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    ctx: Context,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), ctx.0 < 16
    ensures tried(*old(p), *final(p), is_in_step(ctx.0 as int, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «proof { lemma_good_empty(p.env().inp(), tokens.0 as int); }»
    if p.contexts[ctx.0 as usize] { Some(tokens) } else { None }
}
//@end
/// the parameter and the expression of a call are there, and a parameter of the caller that is handed on is bound
pub open spec fn call_ok(v: Env, args: Seq<(Arg, ExprRef)>, k: int, old: Seq<Option<ExprRef>>) -> bool {
    args[k].0.0 < 16 && args[k].1.0 < v.rules.len() && match v.rules[args[k].1.0 as int] { Expr::Var(j) => j.0 < 16 && old[j.0 as int].is_some(), _ => true }
}
pub open spec fn bound(v: Env, args: Seq<(Arg, ExprRef)>, old: Seq<Option<ExprRef>>, i: int) -> bool {
    let b = bind(v.inp(), old, args);
    &&& (old[i].is_some() || binds(args, i)) ==> b[i].is_some()
    &&& b[i].is_some() ==> (exists|j: int| 0 <= j < 16 && b[i] == #[trigger] old[j]) || (exists|k: int| 0 <= k < args.len() && b[i] == Some((#[trigger] args[k]).1) && !(v.rules[args[k].1.0 as int] is Var))
}
proof fn lemma_bind(v: Env, args: Seq<(Arg, ExprRef)>, old: Seq<Option<ExprRef>>, i: int)
    requires old.len() == 16, forall|k: int| 0 <= k < args.len() ==> #[trigger] call_ok(v, args, k, old), 0 <= i < 16
    ensures bind(v.inp(), old, args).len() == 16, bound(v, args, old, i)
    decreases args.len()
{
    if args.len() > 0 {
        let d = args.drop_last();
        let n = args.len() - 1;
        assert forall|k: int| 0 <= k < d.len() implies #[trigger] call_ok(v, d, k, old) by { assert(call_ok(v, args, k, old)); }
        lemma_bind(v, d, old, i);
        assert(call_ok(v, args, n as int, old));
        let (j, x) = args.last();
        assert(args[n as int].1 == x);
        let b = bind(v.inp(), old, args);
        if j.0 == i {
            if let Expr::Var(w) = v.rules[x.0 as int] { assert(b[i] == old[w.0 as int]); }
        } else {
            let c = bind(v.inp(), old, d);
            assert(b[i] == c[i]);
            if binds(args, i) {
                let k = choose|k: int| 0 <= k < args.len() && (#[trigger] args[k]).0.0 == i;
                assert(k < n);
                assert(d[k].0.0 == i);
            }
            if b[i].is_some() && !(exists|j: int| 0 <= j < 16 && b[i] == #[trigger] old[j]) {
                let k = choose|k: int| 0 <= k < d.len() && c[i] == Some((#[trigger] d[k]).1) && !(v.rules[d[k].1.0 as int] is Var);
                assert(args[k] == d[k]);
            }
        }
    } else {
        assert(bind(v.inp(), old, args) == old);
    }
}
/// a call in a well-formed grammar
pub proof fn lemma_call(v: Env, x: ExprRef, body: ExprRef, args: Seq<(Arg, ExprRef)>, old: Seq<Option<ExprRef>>)
    requires args_ok(v, old), usable(v, x, old), sub_call(v, x, args, body), forall|k: int| 0 <= k < args.len() ==> #[trigger] call_arg_ok(v, x, args, k)
    ensures
        forall|k: int| 0 <= k < args.len() ==> #[trigger] call_ok(v, args, k, old),
        args_ok(v, bind(v.inp(), old, args)), usable(v, body, bind(v.inp(), old, args)),
{
    let b = bind(v.inp(), old, args);
    assert forall|k: int| 0 <= k < args.len() implies #[trigger] call_ok(v, args, k, old) by { assert(call_arg_ok(v, x, args, k)); }
    lemma_bind(v, args, old, 0);
    assert forall|i: int| #[trigger] (v.q.need)(body).contains(i) implies 0 <= i < b.len() && b[i].is_some() by {
        if binds(args, i) {
            let k = choose|k: int| 0 <= k < args.len() && (#[trigger] args[k]).0.0 == i;
            assert(call_ok(v, args, k, old));
        }
        lemma_bind(v, args, old, i);
    }
    assert forall|i: int| 0 <= i < 16 implies #[trigger] arg_ok(v, b, i) by {
        lemma_bind(v, args, old, i);
        if b[i].is_some() {
            let y = b[i]->0;
            if exists|j: int| 0 <= j < 16 && b[i] == #[trigger] old[j] {
                let j = choose|j: int| 0 <= j < 16 && b[i] == #[trigger] old[j];
                assert(arg_ok(v, old, j));
                assert forall|n: int| #[trigger] (v.q.need)(y).contains(n) implies 0 <= n < b.len() && b[n].is_some() by { lemma_bind(v, args, old, n); }
            } else {
                let k = choose|k: int| 0 <= k < args.len() && b[i] == Some((#[trigger] args[k]).1) && !(v.rules[args[k].1.0 as int] is Var);
                assert(call_arg_ok(v, x, args, k));
                assert forall|n: int| #[trigger] (v.q.need)(y).contains(n) implies 0 <= n < b.len() && b[n].is_some() by {
                    if binds(args, n) {
                        let m = choose|m: int| 0 <= m < args.len() && (#[trigger] args[m]).0.0 == n;
                        assert(call_ok(v, args, m, old));
                    }
                    lemma_bind(v, args, old, n);
                }
            }
        }
    }
}
//@fn fall/parse/src/syn_engine/expr.rs parse_call
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_call<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    body: ExprRef, args: &'g [(Arg, ExprRef)],
) -> «(r:» Option<Pos> «)
    requires
        ready(old(p), tokens), forall|k: int| 0 <= k < args@.len() ==> #[trigger] call_ok(old(p).env(), args@, k, old(p).args@),
        args_ok(old(p).env(), bind(old(p).env().inp(), old(p).args@, args@)), usable(old(p).env(), body, bind(old(p).env().inp(), old(p).args@, args@)),
    ensures tried(*old(p), *final(p), call_step(old(p).env().q.s, old(p).env().inp(), body, args@, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «let ghost p0 = *p;»
    let old = p.args;
    {
        let mut i__0: usize = 0;
        while i__0 < args.len()
        «invariant
            i__0 <= args@.len(), ready(&p0, tokens), old@ == p0.args@, *p == (Parser { args: p.args, ..p0 }),
            p.args@ == bind(p0.env().inp(), old@, args@.take(i__0 as int)),
            forall|k: int| 0 <= k < args@.len() ==> #[trigger] call_ok(p0.env(), args@, k, p0.args@),
         decreases args@.len() - i__0»
        {
            «proof { assert(call_ok(p0.env(), args@, i__0 as int, p0.args@)); assert(args@.take(i__0 + 1).drop_last() =~= args@.take(i__0 as int)); }»
            let j__0 = i__0;
            i__0 = i__0 + 1;
            let arg_pos = args[j__0].0;
            let arg = args[j__0].1;
            let arg = match p.grammar[arg] {
                Expr::Var(i) => old[i.0 as usize].unwrap(),
                _ => arg
            };
            p.args[arg_pos.0 as usize] = Some(arg);
        }
    }
    «proof { assert(args@.take(args@.len() as int) =~= args@); assert(p.st() == (St { args: p.args@, ..p0.st() })); }»
    let result = parse_expr(p, body, tokens);
    p.args = old;
    result
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_var
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_var<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    i: Arg,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), i.0 < 16, old(p).args@[i.0 as int].is_some()
    ensures tried(*old(p), *final(p), var_step(old(p).env().q.s, i.0 as int, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «proof { assert(arg_ok(p.env(), p.args@, i.0 as int)); }»
    let expr = p.args[i.0 as usize].unwrap();
    parse_expr(p, expr, tokens)
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_prev_is
pub fn parse_prev_is<'g>(
    p: &mut Parser<'g>, tokens: Pos,
    ts: &[NodeTypeRef],
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), forall|k: int| 0 <= k < ts@.len() ==> ty_ok(old(p).env(), #[trigger] ts@[k])
    ensures tried(*old(p), *final(p), prev_is_step(old(p).env().inp(), ts@, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
{
    «proof { lemma_good_empty(p.env().inp(), tokens.0 as int); }»
    if let Some(prev) = p.prev {
        {
            let mut i__0: usize = 0;
            while i__0 < ts.len()
            «invariant
                *p == *old(p), ready(p, tokens), p.prev == Some(prev), i__0 <= ts@.len(), forall|k: int| 0 <= k < ts@.len() ==> ty_ok(old(p).env(), #[trigger] ts@[k]),
                forall|k: int| 0 <= k < i__0 ==> p.env().inp().ty(#[trigger] ts@[k]) != prev, good(p.env().inp(), Seq::empty(), tokens.0 as int, tokens.0 as int),
             decreases ts@.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let ty_idx = ts[j__0];
                let t = p[ty_idx];
                if t == prev {
                    «proof { assert(p.env().inp().ty(ts@[j__0 as int]) == prev); }»
                    return Some(tokens);
                }
            }
        }
    }
    None
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_inject
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_inject<'g>(
    p: &mut Parser<'g>, pos: Pos,
    prefix: ExprRef, body: ExprRef,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), pos), usable(old(p).env(), prefix, old(p).args@), usable(old(p).env(), body, old(p).args@),
        opens(old(p).env(), prefix, true), opens(old(p).env(), body, false)
    ensures tried(*old(p), *final(p), inject_step(old(p).env().q.s, old(p).env().inp(), prefix, body, old(p).st(), pos.0 as int, pos.1 as int), pos, r)»
{
    «let ghost g = p.env().inp();
    let ghost base = p.events@.len() as int;
    let ghost o = sem(p, Item::E(prefix), pos);»
    let prefix_mark = p.mark();
    let after_prefix = parse_expr(p, prefix, pos)?;
    «let ghost q = sem(p, Item::E(body), after_prefix);
    proof { assert(p.st() == old(p).st().then(o->0)); }»
    let body_mark = p.mark();
    let result = parse_expr(p, body, after_prefix)?;
    «proof {
        let (x, y) = (o->0.ev, q->0.ev);
        if !p.predicate_mode {
            assert(p.events@ =~= old(p).events@ + x + y);
            if after_prefix.0 != pos.0 {
                assert(p.events@.subrange(base, body_mark.0 as int) =~= x);
                assert(p.events@.take(base) =~= old(p).events@);
                assert(p.events@.skip(body_mark.0 as int) =~= y);
                lemma_wrap(g, x, y, pos.0 as int, after_prefix.0 as int, result.0 as int);
            } else {
                lemma_good_concat(g, x, y, pos.0 as int, after_prefix.0 as int, result.0 as int);
            }
        }
    }»
    if after_prefix != pos {
        p.forward_parent(prefix_mark, body_mark «, Ghost(base)»);
    }
    Some(result)
}
//@end
//@fn fall/parse/src/syn_engine/expr.rs parse_cached
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_cached<'g>(p: &mut Parser<'g>, expr: ExprRef, pos: Pos) -> «(r:» Option<Pos> «)
    requires ready(old(p), pos), is_cached(old(p).env().inp(), expr), usable(old(p).env(), expr, old(p).args@)
    ensures tried(*old(p), *final(p), cached_step(old(p).env().q.s, expr, old(p).st(), pos.0 as int, pos.1 as int), pos, r)»
{
    let (prev, replacement) = (p.prev.take(), p.replacement.take());
    «proof { assert(p.st() == old(p).st().at(None, None)); }
    let ghost g = p.env().inp();
    let ghost o = sem(p, Item::E(expr), pos);»

    let mark = p.start_cached(expr);
    «let ghost p1 = *p;
    proof { assert(p.st() == old(p).st().at(None, None)); }»
    let result = match p.get_from_cache(expr, pos) {
        Some(v__0) => Some(v__0),
        None => {
            parse_expr(p, expr, pos)
        }
    };
    if result.is_some() {
        p.finish_cached(mark);
    }
    «proof {
        let e = Event::Cached { key: expr.0, n_events: o->0.ev.len() as u32, prev: o->0.prev, replacement: o->0.repl };
        if result.is_some() && !p.predicate_mode {
            assert(p.events@ =~= old(p).events@ + (seq![e] + o->0.ev));
            let q = result->0;
            assert(ExprRef(expr.0) == expr);
            assert(seg_of(g, e->Cached_key, old(p).st(), pos.1 as int, pos.0 as int, q.0 as int, o->0.ev, e->Cached_prev, e->Cached_replacement));
            lemma_good_cached(g, e, o->0.ev, pos.0 as int, q.0 as int);
        }
    }»

    p.prev = match p.prev {
        Some(v__1) => Some(v__1),
        None => prev
    };
    p.replacement = match p.replacement {
        Some(v__2) => Some(v__2),
        None => replacement
    };
    result
}
//@end

} // verus!
