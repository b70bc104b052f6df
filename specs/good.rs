// Facts about what expressions produce
verus! {

/// the `k` tokens from `a` on have no space between them
pub open spec fn contiguous(g: Inp, a: int, k: nat) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] g.toks[a + i]).raw == g.toks[a].raw + i }
/// tokens of these sizes are the tokens from `a` to `b`
pub open spec fn covers(g: Inp, rs: Seq<nat>, a: int, b: int) -> bool
    decreases rs.len()
{
    if rs.len() == 0 { a == b } else { a + rs[0] <= b && contiguous(g, a, rs[0]) && covers(g, rs.skip(1), a + rs[0], b) }
}
pub open spec fn above(ev: Seq<Event>, n: int) -> bool { depth(ev.take(n)) >= 0 }
pub open spec fn level(ev: Seq<Event>) -> bool { depth(ev) == 0 && forall|n: int| 0 <= n <= ev.len() ==> #[trigger] above(ev, n) }
/// nodes are complete, wrapped nodes are inside of what wraps them, and the tokens from `a` to `b` are there
pub open spec fn good(g: Inp, ev: Seq<Event>, a: int, b: int) -> bool {
    level(ev) && fp_ok(ev) && covers(g, raws(ev), a, b) && a <= b && noted(g, ev, a)
}
// ---- what is noted about cached rules ----------------------------------------------------------
pub open spec fn sum(rs: Seq<nat>) -> nat
    decreases rs.len()
{
    if rs.len() == 0 { 0 } else { rs[0] + sum(rs.skip(1)) }
}
/// where the token is from which the event with number `i` starts
pub open spec fn at_ev(ev: Seq<Event>, a: int, i: int) -> int { a + sum(raws(ev.take(i))) }
/// the events of the cached rule which is noted at `i`
pub open spec fn seg(ev: Seq<Event>, i: int) -> Seq<Event> { ev.subrange(i + 1, i + 1 + ev[i]->Cached_n_events) }
pub open spec fn no_err(g: Inp, a: int, k: nat) -> bool { forall|i: int| a <= i < a + k ==> (#[trigger] g.toks[i]).ty != ERROR }
/// contextual tokens are not made of what the lexer does not know
pub open spec fn ctx_clean(g: Inp) -> bool {
    forall|text: Seq<u8>, a: int, e: int| (#[trigger] g.by_text(a, e, text)) matches Some(k) && is_contextual(g, text) ==> no_err(g, a, g.by_text(a, e, text)->0 as nat)
}
pub open spec fn is_contextual(g: Inp, text: Seq<u8>) -> bool { exists|i: int| 0 <= i < g.rules.len() && (#[trigger] g.rules[i]) is ContextualToken && g.rules[i]->ContextualToken_1@ == text }
/// a rule has given these events for the tokens from `p` to `b`, not knowing what came before it
pub open spec fn seg_of(g: Inp, key: u32, st: St, e: int, p: int, b: int, ev: Seq<Event>, prev: Option<NodeType>, repl: Option<NodeTypeRef>) -> bool {
    &&& is_cached(g, ExprRef(key)) && p <= b <= e <= g.toks.len() && (g.q.s)(Item::E(ExprRef(key)), st.at(None, None), p, e) == Some(Out { res: Some(b), ev, prev, repl })
    &&& level(ev) && fp_ok(ev) && covers(g, raws(ev), p, b) && (repl matches Some(t) ==> t.0 < g.tys.len())
}
pub open spec fn is_cached(g: Inp, x: ExprRef) -> bool { exists|i: int| 0 <= i < g.rules.len() && #[trigger] g.rules[i] == Expr::Cached(x) }
pub open spec fn seg_known(g: Inp, ev: Seq<Event>, p: int, i: int) -> bool {
    exists|st: St, e: int| #[trigger] seg_of(g, ev[i]->Cached_key, st, e, p, p + sum(raws(seg(ev, i))), seg(ev, i), ev[i]->Cached_prev, ev[i]->Cached_replacement)
}
/// no node from before is wrapped by a node in the segment
pub open spec fn seg_alone(ev: Seq<Event>, i: int) -> bool {
    forall|j: int| 0 <= j <= i && (#[trigger] tgt(ev, j)) is Some ==> tgt(ev, j)->0 <= i || tgt(ev, j)->0 > i + ev[i]->Cached_n_events
}
/// what is noted in the segment is in the segment as a whole
pub open spec fn nested_at(ev: Seq<Event>, i: int, j: int) -> bool { ev[j] is Cached ==> j + 1 + ev[j]->Cached_n_events <= i + 1 + ev[i]->Cached_n_events }
pub open spec fn nested(ev: Seq<Event>, i: int) -> bool { forall|j: int| i < j <= i + ev[i]->Cached_n_events ==> #[trigger] nested_at(ev, i, j) }
pub open spec fn noted_at(g: Inp, ev: Seq<Event>, a: int, i: int) -> bool {
    match ev[i] {
        Event::Cached { n_events, .. } => i + 1 + n_events <= ev.len() && seg_known(g, ev, at_ev(ev, a, i), i) && seg_alone(ev, i) && nested(ev, i),
        Event::Token { ty, n_raw_tokens } => ctx_clean(g) && ty != ERROR ==> no_err(g, at_ev(ev, a, i), n_raw_tokens as nat),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn noted(g: Inp, ev: Seq<Event>, a: int) -> bool { forall|i: int| 0 <= i < ev.len() ==> #[trigger] noted_at(g, ev, a, i) }

pub proof fn lemma_sum_concat(r: Seq<nat>, s: Seq<nat>)
    ensures sum(r + s) == sum(r) + sum(s)
    decreases r.len()
{
    if r.len() == 0 {
        assert(r + s =~= s);
    } else {
        lemma_sum_concat(r.skip(1), s);
        assert((r + s).skip(1) =~= r.skip(1) + s);
    }
}
pub proof fn lemma_covers_sum(g: Inp, rs: Seq<nat>, a: int, b: int)
    requires covers(g, rs, a, b)
    ensures a + sum(rs) == b
    decreases rs.len()
{
    if rs.len() > 0 { lemma_covers_sum(g, rs.skip(1), a + rs[0], b); }
}
pub proof fn lemma_noted_concat(g: Inp, x: Seq<Event>, y: Seq<Event>, a: int, b: int)
    requires noted(g, x, a), noted(g, y, b), a + sum(raws(x)) == b, forall|j: int| 0 <= j < x.len() && (#[trigger] tgt(x, j)) is Some ==> tgt(x, j)->0 <= x.len()
    ensures noted(g, x + y, a)
{
    reveal(noted);
    let z = x + y;
    assert forall|i: int| 0 <= i < z.len() implies #[trigger] noted_at(g, z, a, i) by {
        if i < x.len() {
            assert(noted_at(g, x, a, i));
            assert(z[i] == x[i]);
            assert(z.take(i) =~= x.take(i));
            if x[i] is Cached {
                assert(seg(z, i) =~= seg(x, i));
                assert forall|j: int| i < j <= i + z[i]->Cached_n_events implies #[trigger] nested_at(z, i, j) by { assert(nested_at(x, i, j)); }
                assert forall|j: int| 0 <= j <= i && (#[trigger] tgt(z, j)) is Some implies tgt(z, j)->0 <= i || tgt(z, j)->0 > i + z[i]->Cached_n_events by { assert(tgt(x, j) == tgt(z, j)); }
            }
        } else {
            let k = i - x.len();
            assert(noted_at(g, y, b, k));
            assert(z[i] == y[k]);
            assert(z.take(i) =~= x + y.take(k));
            lemma_depth_concat(x, y.take(k));
            lemma_sum_concat(raws(x), raws(y.take(k)));
            assert(at_ev(z, a, i) == at_ev(y, b, k));
            if y[k] is Cached {
                assert(seg(z, i) =~= seg(y, k));
                assert forall|j: int| i < j <= i + z[i]->Cached_n_events implies #[trigger] nested_at(z, i, j) by { assert(nested_at(y, k, j - x.len())); }
                assert forall|j: int| 0 <= j <= i && (#[trigger] tgt(z, j)) is Some implies tgt(z, j)->0 <= i || tgt(z, j)->0 > i + z[i]->Cached_n_events by {
                    if j < x.len() { assert(tgt(x, j) == tgt(z, j)); } else { assert(z[j] == y[j - x.len()]); assert(tgt(y, j - x.len()) is Some && tgt(y, j - x.len())->0 + x.len() == tgt(z, j)->0); }
                }
            }
        }
    }
}
pub proof fn lemma_noted_plain(g: Inp, ev: Seq<Event>, a: int)
    requires forall|i: int| 0 <= i < ev.len() ==> !((#[trigger] ev[i]) is Cached) && !(ev[i] is Token)
    ensures noted(g, ev, a)
{
    reveal(noted);
    assert forall|i: int| 0 <= i < ev.len() implies #[trigger] noted_at(g, ev, a, i) by { assert(!(ev[i] is Cached) && !(ev[i] is Token)); }
}
/// from outside of a segment nothing leads into it
pub proof fn lemma_top_outside(g: Inp, ev: Seq<Event>, a: int, i: int, k: int)
    requires noted(g, ev, a), fp_ok(ev), 0 <= i < ev.len(), ev[i] is Cached, 0 <= k < ev.len(), k <= i || k > i + ev[i]->Cached_n_events
    ensures top(ev, k) <= i || top(ev, k) > i + ev[i]->Cached_n_events
    decreases ev.len() - k
{
    reveal(noted);
    assert(noted_at(g, ev, a, i));
    assert(tgt_ok(ev, k));
    if let Some(t) = tgt(ev, k) { lemma_top_outside(g, ev, a, i, t); }
}
pub proof fn lemma_noted_wrap(g: Inp, x: Seq<Event>, a: int)
    requires noted(g, x, a), fp_ok(x), starts(x), x.len() <= u32::MAX
    ensures noted(g, wrap(x), a)
{
    reveal(noted);
    let w = wrap(x);
    let c = top(x, 0);
    lemma_top(x, 0);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] noted_at(g, w, a, i) by {
        assert(noted_at(g, x, a, i));
        assert forall|j: int| 0 <= j < x.take(i).len() implies (x.take(i)[j] == #[trigger] w.take(i)[j] || x.take(i)[j] is Start && w.take(i)[j] is Start) by {}
        lemma_same_delta(x.take(i), w.take(i));
        if x[i] is Cached {
            lemma_top_outside(g, x, a, i, 0);
            assert(seg(w, i) =~= seg(x, i));
            assert forall|j: int| i < j <= i + w[i]->Cached_n_events implies #[trigger] nested_at(w, i, j) by { assert(nested_at(x, i, j)); }
            assert forall|j: int| 0 <= j <= i && (#[trigger] tgt(w, j)) is Some implies tgt(w, j)->0 <= i || tgt(w, j)->0 > i + w[i]->Cached_n_events by {
                if j != c { assert(tgt(x, j) == tgt(w, j)); }
            }
        }
    }
}

pub open spec fn starts(ev: Seq<Event>) -> bool { ev.len() > 0 && ev[0] is Start }

pub proof fn lemma_covers_concat(g: Inp, r: Seq<nat>, s: Seq<nat>, a: int, b: int, c: int)
    requires covers(g, r, a, b), covers(g, s, b, c), a <= b <= c
    ensures covers(g, r + s, a, c)
    decreases r.len()
{
    if r.len() == 0 {
        assert(r + s =~= s);
    } else {
        lemma_covers_concat(g, r.skip(1), s, a + r[0], b, c);
        assert((r + s).skip(1) =~= r.skip(1) + s);
    }
}
pub proof fn lemma_covers_le(g: Inp, r: Seq<nat>, a: int, b: int)
    requires covers(g, r, a, b)
    ensures a <= b
    decreases r.len()
{
    if r.len() > 0 { lemma_covers_le(g, r.skip(1), a + r[0], b); }
}
pub proof fn lemma_fp_concat(x: Seq<Event>, y: Seq<Event>)
    requires fp_ok(x), fp_ok(y)
    ensures fp_ok(x + y)
{
    let z = x + y;
    assert forall|i: int| 0 <= i < z.len() implies #[trigger] tgt_ok(z, i) by {
        if i < x.len() {
            assert(tgt_ok(x, i));
            assert(z[i] == x[i]);
            if let Some(t) = tgt(z, i) {
                assert(z[t] == x[t]);
                assert forall|j: int| i < j < t && (#[trigger] tgt(z, j)).is_some() implies tgt(z, j)->0 < t by { assert(z[j] == x[j]); assert(tgt(x, j) == tgt(z, j)); }
            }
        } else {
            let k = i - x.len();
            assert(tgt_ok(y, k));
            assert(z[i] == y[k]);
            if let Some(t) = tgt(z, i) {
                assert(tgt(y, k) == Some(t - x.len()));
                assert(z[t] == y[t - x.len()]);
                assert forall|j: int| i < j < t && (#[trigger] tgt(z, j)).is_some() implies tgt(z, j)->0 < t by {
                    assert(z[j] == y[j - x.len()]);
                    assert(tgt(y, j - x.len()).is_some() && tgt(y, j - x.len())->0 + x.len() == tgt(z, j)->0);
                }
            }
        }
    }
}
pub proof fn lemma_level_concat(x: Seq<Event>, y: Seq<Event>)
    requires level(x), level(y)
    ensures level(x + y)
{
    lemma_depth_concat(x, y);
    assert forall|n: int| 0 <= n <= (x + y).len() implies #[trigger] above(x + y, n) by {
        if n <= x.len() {
            assert(above(x, n));
            assert((x + y).take(n) =~= x.take(n));
        } else {
            assert(above(y, n - x.len()));
            assert((x + y).take(n) =~= x + y.take(n - x.len()));
            lemma_depth_concat(x, y.take(n - x.len()));
        }
    }
}
pub proof fn lemma_good_empty(g: Inp, a: int)
    ensures good(g, Seq::empty(), a, a)
{
    let e = Seq::<Event>::empty();
    assert forall|n: int| 0 <= n <= e.len() implies #[trigger] above(e, n) by { assert(e.take(n) =~= e); }
    assert(raws(e) =~= Seq::<nat>::empty());
    lemma_noted_plain(g, e, a);
}
pub proof fn lemma_good_concat(g: Inp, x: Seq<Event>, y: Seq<Event>, a: int, b: int, c: int)
    requires good(g, x, a, b), good(g, y, b, c)
    ensures good(g, x + y, a, c)
{
    lemma_level_concat(x, y);
    lemma_fp_concat(x, y);
    lemma_depth_concat(x, y);
    lemma_covers_concat(g, raws(x), raws(y), a, b, c);
    lemma_covers_sum(g, raws(x), a, b);
    assert forall|j: int| 0 <= j < x.len() && (#[trigger] tgt(x, j)) is Some implies tgt(x, j)->0 <= x.len() by { assert(tgt_ok(x, j)); }
    lemma_noted_concat(g, x, y, a, b);
}
pub proof fn lemma_single(e: Event)
    ensures depth(seq![e]) == delta(e), raws(seq![e]) == (match e { Event::Token { n_raw_tokens, .. } => seq![n_raw_tokens as nat], _ => Seq::<nat>::empty() }),
        tgt(seq![e], 0).is_none() ==> fp_ok(seq![e]),
        delta(e) == 0 ==> level(seq![e])
{
    let s = seq![e];
    assert(s.drop_last() =~= Seq::<Event>::empty());
    assert(depth(s) == depth(s.drop_last()) + delta(e));
    assert(raws(s.drop_last()) =~= Seq::<nat>::empty());
    assert(raws(s) =~= (match e { Event::Token { n_raw_tokens, .. } => seq![n_raw_tokens as nat], _ => Seq::<nat>::empty() }));
    if delta(e) == 0 {
        assert forall|n: int| 0 <= n <= s.len() implies #[trigger] above(s, n) by {
            if n == 0 { assert(s.take(0) =~= Seq::<Event>::empty()); } else { assert(s.take(1) =~= s); }
        }
    }
}
pub proof fn lemma_good_token(g: Inp, ty: NodeType, k: u16, a: int)
    requires contiguous(g, a, k as nat), ctx_clean(g) && ty != ERROR ==> no_err(g, a, k as nat)
    ensures good(g, seq![Event::Token { ty, n_raw_tokens: k }], a, a + k)
{
    let e = Event::Token { ty, n_raw_tokens: k };
    lemma_single(e);
    assert(raws(seq![e]).skip(1) =~= Seq::<nat>::empty());
    assert(raws(seq![e])[0] == k);
    assert(covers(g, raws(seq![e]).skip(1), a + k, a + k));
    reveal(noted);
    assert(seq![e].take(0) =~= Seq::<Event>::empty());
    assert(noted_at(g, seq![e], a, 0));
}
pub proof fn lemma_contiguous_one(g: Inp, a: int)
    ensures contiguous(g, a, 1)
{
    assert forall|i: int| 0 <= i < 1 implies (#[trigger] g.toks[a + i]).raw == g.toks[a].raw + i by { assert(i == 0); }
}
pub proof fn lemma_good_node(g: Inp, ty: NodeType, ev: Seq<Event>, a: int, b: int)
    requires good(g, ev, a, b)
    ensures good(g, node(ty, ev), a, b), starts(node(ty, ev)), tgt(node(ty, ev), 0).is_none()
{
    let (x, y) = (seq![open_ev(ty)], seq![Event::End]);
    lemma_single(open_ev(ty));
    lemma_single(Event::End);
    lemma_fp_concat(x, ev);
    lemma_fp_concat(x + ev, y);
    lemma_depth_concat(x, ev);
    lemma_depth_concat(x + ev, y);
    assert(raws(node(ty, ev)) =~= raws(ev));
    lemma_noted_plain(g, x, a);
    lemma_noted_plain(g, y, b);
    lemma_covers_sum(g, raws(ev), a, b);
    lemma_noted_concat(g, x, ev, a, a);
    assert forall|j: int| 0 <= j < (x + ev).len() && (#[trigger] tgt(x + ev, j)) is Some implies tgt(x + ev, j)->0 <= (x + ev).len() by { assert(tgt_ok(x + ev, j)); }
    lemma_noted_concat(g, x + ev, y, a, b);
    let z = node(ty, ev);
    assert forall|n: int| 0 <= n <= z.len() implies #[trigger] above(z, n) by {
        if n == 0 {
            assert(z.take(0) =~= Seq::<Event>::empty());
        } else if n == z.len() {
            assert(z.take(n) =~= z);
        } else {
            assert(above(ev, n - 1));
            assert(z.take(n) =~= x + ev.take(n - 1));
            lemma_depth_concat(x, ev.take(n - 1));
        }
    }
}
/// the whole of what the parser produces is one node
pub proof fn lemma_node_balanced(ty: NodeType, ev: Seq<Event>)
    requires level(ev)
    ensures balanced(node(ty, ev))
{
    let (x, y) = (seq![open_ev(ty)], seq![Event::End]);
    let z = node(ty, ev);
    lemma_single(open_ev(ty));
    lemma_single(Event::End);
    lemma_depth_concat(x, ev);
    lemma_depth_concat(x + ev, y);
    assert forall|n: int| 0 < n < z.len() implies #[trigger] inside(z, n) by {
        assert(above(ev, n - 1));
        assert(z.take(n) =~= x + ev.take(n - 1));
        lemma_depth_concat(x, ev.take(n - 1));
    }
}
pub proof fn lemma_noted_shift(g: Inp, e: Event, ev: Seq<Event>, a: int, k: int)
    requires noted(g, ev, a), 0 <= k < ev.len(), e is Cached
    ensures noted_at(g, seq![e] + ev, a, k + 1)
{
    reveal(noted);
    let z = seq![e] + ev;
    assert(noted_at(g, ev, a, k));
    assert(z[k + 1] == ev[k]);
    assert(z.take(k + 1) =~= seq![e] + ev.take(k));
    lemma_single(e);
    lemma_depth_concat(seq![e], ev.take(k));
    assert(raws(z.take(k + 1)) =~= raws(ev.take(k)));
    if ev[k] is Cached {
        assert(seg(z, k + 1) =~= seg(ev, k));
        assert forall|j: int| k + 1 < j <= k + 1 + z[k + 1]->Cached_n_events implies #[trigger] nested_at(z, k + 1, j) by { assert(nested_at(ev, k, j - 1)); }
        assert forall|j: int| 0 <= j <= k + 1 && (#[trigger] tgt(z, j)) is Some implies tgt(z, j)->0 <= k + 1 || tgt(z, j)->0 > k + 1 + z[k + 1]->Cached_n_events by {
            if j > 0 { assert(z[j] == ev[j - 1]); assert(tgt(ev, j - 1) is Some && tgt(ev, j - 1)->0 + 1 == tgt(z, j)->0); }
        }
    }
}
pub proof fn lemma_good_cached(g: Inp, e: Event, ev: Seq<Event>, a: int, b: int)
    requires
        good(g, ev, a, b), e is Cached, e->Cached_n_events == ev.len(),
        exists|st: St, x: int| #[trigger] seg_of(g, e->Cached_key, st, x, a, b, ev, e->Cached_prev, e->Cached_replacement),
    ensures good(g, seq![e] + ev, a, b)
{
    let (st, x) = choose|st: St, x: int| #[trigger] seg_of(g, e->Cached_key, st, x, a, b, ev, e->Cached_prev, e->Cached_replacement);
    lemma_covers_sum(g, raws(ev), a, b);
    assert(noted(g, seq![e] + ev, a)) by {
        reveal(noted);
        let z = seq![e] + ev;
        assert forall|i: int| 0 <= i < z.len() implies #[trigger] noted_at(g, z, a, i) by {
            if i == 0 {
                assert(seg(z, 0) =~= ev);
                assert forall|j: int| 0 < j <= ev.len() implies #[trigger] nested_at(z, 0, j) by { assert(noted_at(g, ev, a, j - 1)); assert(z[j] == ev[j - 1]); }
                assert(z.take(0) =~= Seq::<Event>::empty());
                assert(seg_of(g, z[0]->Cached_key, st, x, a, a + sum(raws(seg(z, 0))), seg(z, 0), z[0]->Cached_prev, z[0]->Cached_replacement));
            } else {
                lemma_noted_shift(g, e, ev, a, i - 1);
            }
        }
    }
    lemma_single(e);
    lemma_level_concat(seq![e], ev);
    lemma_fp_concat(seq![e], ev);
    lemma_depth_concat(seq![e], ev);
    assert(raws(seq![e] + ev) =~= raws(ev));
}
pub proof fn lemma_good_err(g: Inp, a: int)
    ensures good(g, err_node(), a, a)
{
    lemma_good_empty(g, a);
    lemma_good_node(g, ERROR, Seq::empty(), a, a);
    assert(err_node() =~= node(ERROR, Seq::empty()));
}
pub proof fn lemma_good_tokens(g: Inp, a: int, b: int)
    requires a <= b
    ensures good(g, g.tokens(a, b), a, b)
    decreases b - a
{
    if a == b {
        lemma_good_empty(g, a);
        assert(g.tokens(a, b) =~= Seq::<Event>::empty());
    } else {
        lemma_good_tokens(g, a, b - 1);
        lemma_contiguous_one(g, b - 1);
        assert(no_err(g, b - 1, 1) || g.toks[b - 1].ty == ERROR);
        lemma_good_token(g, g.toks[b - 1].ty, 1, b - 1);
        lemma_good_concat(g, g.tokens(a, b - 1), seq![g.token(b - 1)], a, b - 1, b);
        assert(g.tokens(a, b - 1) + seq![g.token(b - 1)] =~= g.tokens(a, b));
    }
}
pub proof fn lemma_good_skipped(g: Inp, a: int, b: int)
    requires a <= b
    ensures good(g, g.skipped(a, b), a, b)
{
    if a == b {
        lemma_good_empty(g, a);
    } else {
        lemma_good_tokens(g, a, b);
        lemma_good_node(g, ERROR, g.tokens(a, b), a, b);
    }
}

// ---- wrapping --------------------------------------------------------------------------------
pub proof fn lemma_top(ev: Seq<Event>, i: int)
    requires fp_ok(ev), 0 <= i < ev.len(), ev[i] is Start
    ensures i <= top(ev, i) < ev.len(), ev[top(ev, i)] is Start, tgt(ev, top(ev, i)).is_none(),
        forall|j: int| i <= j < top(ev, i) && (#[trigger] tgt(ev, j)).is_some() ==> tgt(ev, j)->0 <= top(ev, i)
    decreases ev.len() - i
{
    assert(tgt_ok(ev, i));
    if let Some(t) = tgt(ev, i) {
        lemma_top(ev, t);
        assert forall|j: int| i <= j < top(ev, i) && (#[trigger] tgt(ev, j)).is_some() implies tgt(ev, j)->0 <= top(ev, i) by {
            if j > i && j < t { assert(tgt(ev, j)->0 < t); }
        }
    }
}
pub proof fn lemma_top_concat(x: Seq<Event>, y: Seq<Event>, i: int)
    requires fp_ok(x), 0 <= i < x.len(), x[i] is Start
    ensures top(x + y, i) == top(x, i)
    decreases x.len() - i
{
    assert((x + y)[i] == x[i]);
    assert(tgt_ok(x, i));
    if let Some(t) = tgt(x, i) { lemma_top_concat(x, y, t); }
}
pub proof fn lemma_top_suffix(x: Seq<Event>, y: Seq<Event>, i: int)
    requires 0 <= i < y.len()
    ensures top(x + y, x.len() + i) == x.len() + top(y, i)
    decreases y.len() - i
{
    assert((x + y)[x.len() + i] == y[i]);
    if let Some(t) = tgt(y, i) {
        if i < t < y.len() { lemma_top_suffix(x, y, t); }
    }
}
pub proof fn lemma_same_delta(x: Seq<Event>, y: Seq<Event>)
    requires x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> (x[i] == #[trigger] y[i] || x[i] is Start && y[i] is Start)
    ensures depth(x) == depth(y), raws(x) == raws(y)
    decreases x.len()
{
    if x.len() > 0 {
        let l = x.len() - 1;
        assert(x[l] == y[l] || x[l] is Start && y[l] is Start);
        assert forall|i: int| 0 <= i < x.drop_last().len() implies (x.drop_last()[i] == #[trigger] y.drop_last()[i] || x.drop_last()[i] is Start && y.drop_last()[i] is Start) by { assert(y.drop_last()[i] == y[i]); }
        lemma_same_delta(x.drop_last(), y.drop_last());
    } else {
        assert(x =~= y);
    }
}
pub proof fn lemma_wrap(g: Inp, x: Seq<Event>, y: Seq<Event>, a: int, b: int, c: int)
    requires good(g, x, a, b), good(g, y, b, c), starts(x), starts(y), x.len() <= u32::MAX
    ensures good(g, wrap(x) + y, a, c), starts(wrap(x) + y), wrap(x).len() == x.len(),
        top(wrap(x) + y, 0) == x.len() + top(y, 0)
{
    let w = wrap(x);
    let z = w + y;
    let t = top(x, 0);
    lemma_top(x, 0);
    assert forall|i: int| 0 <= i < x.len() implies (x[i] == #[trigger] w[i] || x[i] is Start && w[i] is Start) by {}
    lemma_same_delta(x, w);
    assert(level(w)) by {
        assert forall|n: int| 0 <= n <= w.len() implies #[trigger] above(w, n) by {
            assert(above(x, n));
            assert forall|i: int| 0 <= i < x.take(n).len() implies (x.take(n)[i] == #[trigger] w.take(n)[i] || x.take(n)[i] is Start && w.take(n)[i] is Start) by {}
            lemma_same_delta(x.take(n), w.take(n));
        }
    }
    lemma_level_concat(w, y);
    lemma_depth_concat(w, y);
    lemma_covers_concat(g, raws(w), raws(y), a, b, c);
    lemma_noted_wrap(g, x, a);
    lemma_covers_sum(g, raws(w), a, b);
    assert forall|j: int| 0 <= j < w.len() && (#[trigger] tgt(w, j)) is Some implies tgt(w, j)->0 <= w.len() by { if j != t { assert(w[j] == x[j]); assert(tgt_ok(x, j)); } }
    lemma_noted_concat(g, w, y, a, b);
    assert(tgt(z, t) == Some(x.len() as int)) by { assert(z[t] == w[t]); }
    assert(z[x.len() as int] == y[0]);
    assert forall|i: int| 0 <= i < z.len() implies #[trigger] tgt_ok(z, i) by {
        if i < x.len() {
            assert(tgt_ok(x, i));
            if i == t {
                assert forall|j: int| i < j < x.len() && (#[trigger] tgt(z, j)).is_some() implies tgt(z, j)->0 < x.len() by { assert(z[j] == x[j]); assert(tgt_ok(x, j)); assert(tgt(x, j) == tgt(z, j)); }
            } else {
                assert(z[i] == x[i]);
                assert(tgt(z, i) == tgt(x, i));
                if let Some(u) = tgt(x, i) {
                    assert(z[u] is Start);
                    assert forall|j: int| i < j < u && (#[trigger] tgt(z, j)).is_some() implies tgt(z, j)->0 < u by {
                        if j == t { assert(tgt(x, i)->0 <= t); } else { assert(z[j] == x[j]); assert(tgt(x, j) == tgt(z, j)); }
                    }
                }
            }
        } else {
            let k = i - x.len();
            assert(tgt_ok(y, k));
            assert(z[i] == y[k]);
            if let Some(u) = tgt(z, i) {
                assert(tgt(y, k) == Some(u - x.len()));
                assert(z[u] == y[u - x.len()]);
                assert forall|j: int| i < j < u && (#[trigger] tgt(z, j)).is_some() implies tgt(z, j)->0 < u by {
                    assert(z[j] == y[j - x.len()]);
                    assert(tgt(y, j - x.len()).is_some() && tgt(y, j - x.len())->0 + x.len() == tgt(z, j)->0);
                }
            }
        }
    }
    lemma_wrap_top(x, y, 0);
    lemma_top_suffix(w, y, 0);
}
proof fn lemma_wrap_top(x: Seq<Event>, y: Seq<Event>, i: int)
    requires fp_ok(x), starts(x), starts(y), 0 <= i < x.len(), x[i] is Start, top(x, i) == top(x, 0), x.len() <= u32::MAX
    ensures top(wrap(x) + y, i) == top(wrap(x) + y, x.len() as int)
    decreases x.len() - i
{
    let z = wrap(x) + y;
    lemma_top(x, 0);
    lemma_top(x, i);
    assert(tgt_ok(x, i));
    if i == top(x, 0) {
        assert(z[i] == wrap(x)[i]);
        assert(tgt(z, i) == Some(x.len() as int));
    } else {
        assert(z[i] == x[i]);
        let t = tgt(x, i)->0;
        lemma_wrap_top(x, y, t);
        assert(tgt(z, i) == tgt(x, i));
    }
}

} // verus!
