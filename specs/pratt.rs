// Operators: fall/parse/src/syn_engine/pratt.rs
//@owner C14
verus! {

/// the operators of the priority or higher, from the i-th on
pub open spec fn infixes_from(xs: Seq<Infix>, min: int, i: int) -> Seq<int>
    decreases xs.len() - i
{
    if i < 0 || i >= xs.len() { Seq::empty() } else if xs[i].priority < min { infixes_from(xs, min, i + 1) } else { seq![i] + infixes_from(xs, min, i + 1) }
}
pub open spec fn pick(xs: Seq<Infix>, is: Seq<int>) -> Seq<Infix> { Seq::new(is.len(), |k: int| xs[is[k]]) }
pub open spec fn derefs<'a>(xs: Seq<&'a Infix>) -> Seq<Infix> { Seq::new(xs.len(), |k: int| *xs[k]) }
/// operators of lower priority are passed over
proof fn lemma_next_infix(s: Sem, g: Inp, t: PrattTable, min: int, i: int, acc: Seq<Event>, st: St, a: int, e: int) -> (r: int)
    requires solves(s, g), 0 <= i <= t.infixes@.len()
    ensures
        s(Item::Infix(t, min, i, acc), st, a, e) == s(Item::Infix(t, min, r, acc), st, a, e), i <= r <= t.infixes@.len(),
        infixes_from(t.infixes@, min, i) == (if r == t.infixes@.len() { Seq::<int>::empty() } else { seq![r] + infixes_from(t.infixes@, min, r + 1) }),
        r < t.infixes@.len() ==> t.infixes@[r].priority >= min,
    decreases t.infixes@.len() - i
{
    lemma_solves(s, g, Item::Infix(t, min, i, acc), st, a, e);
    if i < t.infixes@.len() && t.infixes@[i].priority < min { lemma_next_infix(s, g, t, min, i + 1, acc, st, a, e) } else { i }
}

impl PrattTable {
//@rewrite1 Box < dyn Iterator < Item = & 'p Infix > + 'p > ==> VecIter < & 'p Infix >
//@rewrite1 Box :: new ==>
//@fn fall/parse/src/lib.rs PrattTable::infixes
    pub fn infixes<'p>(&'p self, min_prior: u32) -> «(r:» VecIter<&'p Infix> «)
        ensures r.wf(), r.i == 0, derefs(r.v@) =~= pick(self.infixes@, infixes_from(self.infixes@, min_prior as int, 0))»
    {
        (
            {
                let mut r__0 = Vec::new();
                let mut i__0: usize = 0;
                while i__0 < self.infixes.len()
                «invariant i__0 <= self.infixes@.len(),
                    derefs(r__0@) + pick(self.infixes@, infixes_from(self.infixes@, min_prior as int, i__0 as int)) =~= pick(self.infixes@, infixes_from(self.infixes@, min_prior as int, 0))
                 decreases self.infixes@.len() - i__0»
                {
                    let j__0 = i__0;
                    i__0 = i__0 + 1;
                    let ix = &(&self.infixes[j__0]);
                    if ix.priority >= min_prior {
                        r__0.push(&self.infixes[j__0]);
                    }
                }
                vec_iter(r__0)
            }
        )
    }
//@end
}


pub open spec fn table_ok(p: &Parser, t: PrattTable) -> bool { table_usable(p.env(), t, p.args@) && atoms_open(p.env(), t) }
pub proof fn lemma_table(v: Env, x: ExprRef, t: PrattTable, args: Seq<Option<ExprRef>>)
    requires usable(v, x, args), subs(v, x, t.atoms@),
        forall|k: int| 0 <= k < t.prefixes@.len() ==> #[trigger] prefix_ok(v, x, t, k), forall|k: int| 0 <= k < t.infixes@.len() ==> #[trigger] infix_ok(v, x, t, k),
    ensures table_usable(v, t, args)
{
    assert forall|k: int| 0 <= k < t.prefixes@.len() implies ty_ok(v, (#[trigger] t.prefixes@[k]).ty) && usable(v, t.prefixes@[k].op, args) by { assert(prefix_ok(v, x, t, k)); }
    assert forall|k: int| 0 <= k < t.infixes@.len() implies ty_ok(v, (#[trigger] t.infixes@[k]).ty) && usable(v, t.infixes@[k].op, args) && t.infixes@[k].priority < u32::MAX by { assert(infix_ok(v, x, t, k)); }
}
/// an alternative that succeeds starts with a node if all of them do
proof fn lemma_or_starts(v: Env, xs: Seq<ExprRef>, i: int, st: St, a: int, e: int)
    requires solves(v.q.s, v.inp()), forall|k: int| 0 <= k < xs.len() ==> opens(v, #[trigger] xs[k], false), 0 <= i <= xs.len(),
        (v.q.s)(Item::Or(xs, i), st, a, e) matches Some(o) && o.res.is_some()
    ensures starts((v.q.s)(Item::Or(xs, i), st, a, e)->0.ev)
    decreases xs.len() - i
{
    lemma_solves(v.q.s, v.inp(), Item::Or(xs, i), st, a, e);
    if i < xs.len() {
        let o = (v.q.s)(Item::E(xs[i]), st, a, e);
        assert(opens(v, xs[i], false));
        if o.is_some() && o->0.res.is_none() { lemma_or_starts(v, xs, i + 1, st.then(o->0), a, e); }
    }
}

//@fn fall/parse/src/syn_engine/pratt.rs parse_pratt
«#[verifier::exec_allows_no_decreases_clause]»
pub fn parse_pratt<'g>(
    p: &mut Parser<'g>,
    table: &'g PrattTable,
    tokens: Pos,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), table_ok(old(p), *table)
    ensures tried(*old(p), *final(p), sem(old(p), Item::Go(*table, 0), tokens), tokens, r)»
{
    pratt_go(p, table, tokens, 0)
}
//@end
//@fn fall/parse/src/syn_engine/pratt.rs pratt_go
«#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(100)]»
pub fn pratt_go<'g>(
    p: &mut Parser<'g>,
    table: &'g PrattTable,
    tokens: Pos,
    min_prior: u32
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), table_ok(old(p), *table)
    ensures tried(*old(p), *final(p), sem(old(p), Item::Go(*table, min_prior as int), tokens), tokens, r), r is None ==> final(p).events@ =~= old(p).events@»
{
    «let ghost g = p.env().inp();
    let ghost s = p.env().q.s;
    let ghost t0 = tokens;
    let ghost a = tokens.0 as int;
    let ghost base = p.events@.len() as int;
    let ghost min = min_prior as int;
    let ghost o0 = sem(p, Item::Go(*table, min), tokens);
    let ghost first = operand(s, g, *table, p.st(), a, tokens.1 as int);
    proof { lemma_solves(s, g, Item::Go(*table, min), p.st(), a, tokens.1 as int); }»
    let mut lhs = p.mark();
    let mut tokens = match pratt_prefix(p, table, tokens) {
        Some(ts) => ts,
        _ => return None,
    };
    «let ghost mut acc = first->0.ev;
    proof { assert(p.st() == old(p).st().then(first->0)); }»

    'l: loop
    «invariant_except_break
        o0 == sem(p, Item::Infix(*table, min, 0, acc), tokens),
     invariant
        ready(old(p), t0), p.same(old(p)), repl_ok(p.env(), p.replacement), table_ok(old(p), *table), g == p.env().inp(), s == p.env().q.s, p.pos_ok(tokens), t0.0 <= tokens.0, t0.1 == tokens.1, a == t0.0,
        base == old(p).events@.len(), min == min_prior, p.events@ =~= old(p).events@ + old(p).emitted(acc),
        !p.predicate_mode ==> good(g, acc, a, tokens.0 as int) && base <= lhs.0 && wrappable(acc, lhs.0 - base),
     ensures o0 == done(p.st(), tokens.0 as int, acc)»
    {
        {
            let mut it__0 = table.infixes(min_prior);
            «let ghost mut i: int = 0;»
            loop
            «invariant_except_break
                o0 == sem(p, Item::Infix(*table, min, i, acc), tokens), it__0.wf(), 0 <= i <= table.infixes@.len(),
                derefs(it__0.v@).skip(it__0.i as int) =~= pick(table.infixes@, infixes_from(table.infixes@, min, i)),
             invariant
                ready(old(p), t0), p.same(old(p)), repl_ok(p.env(), p.replacement), table_ok(old(p), *table), g == p.env().inp(), s == p.env().q.s, p.pos_ok(tokens), t0.0 <= tokens.0, t0.1 == tokens.1, a == t0.0,
                base == old(p).events@.len(), min == min_prior, p.events@ =~= old(p).events@ + old(p).emitted(acc),
                !p.predicate_mode ==> good(g, acc, a, tokens.0 as int) && base <= lhs.0 && wrappable(acc, lhs.0 - base),
             ensures o0 == done(p.st(), tokens.0 as int, acc)»
            {
                «let ghost st = p.st();
                let ghost b = tokens.0 as int;
                let ghost k = lemma_next_infix(s, g, *table, min, i, acc, st, b, tokens.1 as int);
                proof { lemma_solves(s, g, Item::Infix(*table, min, k, acc), st, b, tokens.1 as int); }
                let ghost it1 = it__0;»
                if let Some(x__0) = it__0.next() {
                    let ix = x__0;
                    «proof {
                        assert(derefs(it1.v@).skip(it1.i as int)[0] == *x__0);
                        assert(pick(table.infixes@, infixes_from(table.infixes@, min, i)).len() > 0);
                        assert(infixes_from(table.infixes@, min, i)[0] == k);
                        assert(*ix == table.infixes@[k]);
                        assert(derefs(it__0.v@).skip(it__0.i as int) =~= derefs(it1.v@).skip(it1.i as int).skip(1));
                        assert(infixes_from(table.infixes@, min, i).skip(1) =~= infixes_from(table.infixes@, min, k + 1));
                    }
                    let ghost o = sem(p, Item::E(ix.op), tokens);
                    let ghost op_ty = g.ty(ix.ty);»
                    let new_lhs = p.mark();
                    let mark = p.start(ix.ty);
                    if let Some(rest) = parse_expr(p, ix.op, tokens) {
                        «let ghost st1 = st.then(o->0);
                        proof {
                            assert(p.st() == st1);
                            if !p.predicate_mode {
                                assert(p.events@ =~= old(p).events@ + acc + seq![open_ev(op_ty)] + o->0.ev);
                                assert(p.events@.subrange(base, mark.0 as int) =~= acc);
                            }
                        }»
                        p.forward_parent(lhs, mark «, Ghost(base)»);
                        «proof {
                            if !p.predicate_mode { assert(p.events@ =~= old(p).events@ + wrap(acc) + seq![open_ev(op_ty)] + o->0.ev); }
                        }
                        let ghost mut inner = o->0.ev;
                        let ghost p2 = *p;»
                        tokens = rest;
                        if ix.has_rhs {
                            «let ghost q = sem(p, Item::Go(*table, ix.priority + 1), tokens);»
                            if let Some(rest) = pratt_go(p, table, tokens, ix.priority + 1) {
                                «proof {
                                    if !p.predicate_mode { lemma_good_concat(g, o->0.ev, q->0.ev, b, tokens.0 as int, rest.0 as int); }
                                    inner = o->0.ev + q->0.ev;
                                }»
                                tokens = rest;
                            } else {
                                p.start_error();
                                p.finish();
                                «proof {
                                    lemma_good_err(g, tokens.0 as int);
                                    if !p.predicate_mode { lemma_good_concat(g, o->0.ev, err_node(), b, tokens.0 as int, tokens.0 as int); }
                                    inner = o->0.ev + err_node();
                                }»
                            }
                            «proof { assert(p.st() == st1.then(q->0)); }»
                        }
                        let ty = p[ix.ty];
                        p.prev = Some(ty);
                        lhs = new_lhs;
                        p.finish();
                        «proof {
                            let nd = node(op_ty, inner);
                            if !p.predicate_mode {
                                lemma_good_node(g, op_ty, inner, b, tokens.0 as int);
                                lemma_wrap(g, acc, nd, a, b, tokens.0 as int);
                                lemma_top_suffix(wrap(acc), nd, 0);
                                assert(p.events@ =~= old(p).events@ + (wrap(acc) + nd));
                            }
                            acc = wrap(acc) + nd;
                            assert(o0 == sem(p, Item::Infix(*table, min, 0, acc), tokens));
                        }»
                        continue 'l;
                    }
                    p.rollback(mark)
                    «; proof {
                        assert(p.st() == st.then(o->0));
                        assert(p.events@ =~= old(p).events@ + old(p).emitted(acc));
                        i = k + 1;
                    }»
                } else {
                    «proof { if k < table.infixes@.len() { assert(derefs(it1.v@).skip(it1.i as int).len() == 0); } }»
                    break;
                }
            }
        }
        break
    }

    Some(tokens)
}
//@end
//@fn fall/parse/src/syn_engine/pratt.rs pratt_prefix
«#[verifier::exec_allows_no_decreases_clause]»
pub fn pratt_prefix<'p>(
    p: &mut Parser<'p>,
    table: &'p PrattTable,
    tokens: Pos,
) -> «(r:» Option<Pos> «)
    requires ready(old(p), tokens), table_ok(old(p), *table)
    ensures
        tried(*old(p), *final(p), operand(old(p).env().q.s, old(p).env().inp(), *table, old(p).st(), tokens.0 as int, tokens.1 as int), tokens, r), r is None ==> final(p).events@ =~= old(p).events@,
        r is Some ==> starts(operand(old(p).env().q.s, old(p).env().inp(), *table, old(p).st(), tokens.0 as int, tokens.1 as int)->0.ev)»
{
    «let ghost g = p.env().inp();
    let ghost s = p.env().q.s;
    let ghost o0 = operand(s, g, *table, p.st(), tokens.0 as int, tokens.1 as int);
    let ghost first = sem(p, Item::Or(table.atoms@, 0), tokens);»
    if let Some(result) = parse_or(p, &table.atoms, tokens) {
        «proof { lemma_or_starts(old(p).env(), table.atoms@, 0, old(p).st(), tokens.0 as int, tokens.1 as int); }»
        return Some(result);
    }
    «proof { assert(p.st() == old(p).st().then(first->0)); }»
    {
        let mut i__0: usize = 0;
        while i__0 < table.prefixes.len()
        «invariant
            ready(old(p), tokens), p.same(old(p)), repl_ok(p.env(), p.replacement), table_ok(old(p), *table), i__0 <= table.prefixes@.len(), p.events@ =~= old(p).events@, g == p.env().inp(), s == p.env().q.s,
            o0 == operand(s, g, *table, old(p).st(), tokens.0 as int, tokens.1 as int), o0 == sem(p, Item::Prefix(*table, i__0 as int), tokens)»
        {
            let j__0 = i__0;
            i__0 = i__0 + 1;
            let prefix = &table.prefixes[j__0];
            «proof { lemma_solves(s, g, Item::Prefix(*table, j__0 as int), p.st(), tokens.0 as int, tokens.1 as int); assert(*prefix == table.prefixes@[j__0 as int]); }
            let ghost st = p.st();
            let ghost t0 = tokens;
            let ghost o = sem(p, Item::E(prefix.op), tokens);
            let ghost op_ty = g.ty(prefix.ty);»
            let mark = p.start(prefix.ty);
            if let Some(tokens) = parse_expr(p, prefix.op, tokens) {
                «proof { assert(p.st() == st.then(o->0)); }
                let ghost q = sem(p, Item::Go(*table, prefix.priority as int), tokens);»
                if let Some(rest) = pratt_go(p, table, tokens, prefix.priority) {
                    p.prev = Some(p[prefix.ty]);
                    p.finish();
                    «proof {
                        if !p.predicate_mode {
                            lemma_good_concat(g, o->0.ev, q->0.ev, t0.0 as int, tokens.0 as int, rest.0 as int);
                            lemma_good_node(g, op_ty, o->0.ev + q->0.ev, t0.0 as int, rest.0 as int);
                            assert(p.events@ =~= old(p).events@ + node(op_ty, o->0.ev + q->0.ev));
                        }
                    }»
                    return Some(rest);
                }
                «proof { assert(p.st() == st.then(o->0).then(q->0)); }»
            }
            p.rollback(mark);
            «proof {
                assert(p.events@ =~= old(p).events@);
                assert(o0 == sem(p, Item::Prefix(*table, i__0 as int), tokens)) by {
                    if o->0.res.is_none() { assert(p.st() == st.then(o->0)); }
                }
            }»
        }
    }
    «proof { lemma_solves(s, g, Item::Prefix(*table, table.prefixes@.len() as int), p.st(), tokens.0 as int, tokens.1 as int); }»
    None
}
//@end

} // verus!
