// What is kept of the events before an edit: fall/parse/src/syn_engine/mod.rs
//@owner C05
//@rewrite & dyn Fn ( & Token ) -> bool ==> & TokIsWs
//@rewrite is_ws ( & $e ) ==> is_ws . call ( $e )
//@rewrite HashMap :: new ( ) ==> Cache :: new ( )
mod salvage_ {
use super::*;
verus! {

impl Cache {
    #[verifier::external_body]
    pub fn new() -> (r: Cache)
        ensures forall|k: (TextUnit, ExprRef)| #[trigger] r.at(k) is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (TextUnit, ExprRef), v: (u32, u32, u32))
        ensures forall|j: (TextUnit, ExprRef)| #[trigger] final(self).at(j) == if j == k { Some(v) } else { old(self).at(j) }
    { unimplemented!() }
}

// ---- what an entry says ----------------------------------------------------------------------
pub open spec fn no_error(e: Event) -> bool { match e { Event::Start { ty, .. } => ty != ERROR, Event::Token { ty, .. } => ty != ERROR, _ => true } }
pub open spec fn clean(ev: Seq<Event>) -> bool { forall|i: int| 0 <= i < ev.len() ==> no_error(#[trigger] ev[i]) }
/// the number of the token, spaces included, with which the `p`-th token starts
pub open spec fn raw_at(v: Env, p: int) -> int { gap_to(v.nw, p, v.tokens.len() as int) }
/// where it starts in the text
pub open spec fn text_at(v: Env, p: int) -> int { lens(v.tokens.take(raw_at(v, p))) }
/// the tokens and the start of the next one are in what the `k`-th operation copies, and `t` is where the copy is
pub open spec fn from_copy(v: Env, ops: Seq<TextEditOp>, old: Seq<u8>, p: int, len: int, t: int, k: int) -> bool {
    0 <= k < ops.len() && (ops[k] matches TextEditOp::Copy(c) && c.start.0 <= text_at(v, p) && text_at(v, p + len) < c.end.0
        && t == ops_text(ops.take(k), old).len() + text_at(v, p) - c.start.0)
}
pub open spec fn entry_ok(v: Env, evs: Seq<Event>, ops: Seq<TextEditOp>, old: Seq<u8>, key: (TextUnit, ExprRef), val: (u32, u32, u32)) -> bool {
    let (start, n, len) = val;
    &&& 0 < start && start + n <= evs.len() && evs[start - 1] is Cached && evs[start - 1]->Cached_key == key.1.0 && evs[start - 1]->Cached_n_events == n
    &&& clean(seg(evs, start - 1)) && len == sum(raws(seg(evs, start - 1)))
    &&& exists|k: int| #[trigger] from_copy(v, ops, old, at_ev(evs, 0, start - 1), len as int, key.0.0 as int, k)
}
pub open spec fn entries_ok(v: Env, evs: Seq<Event>, ops: Seq<TextEditOp>, old: Seq<u8>, c: Cache) -> bool {
    forall|t: TextUnit, x: ExprRef| (#[trigger] c.at((t, x))) is Some ==> entry_ok(v, evs, ops, old, (t, x), c.at((t, x))->0)
}
pub proof fn lemma_entry(v: Env, evs: Seq<Event>, ops: Seq<TextEditOp>, old: Seq<u8>, key: (TextUnit, ExprRef), val: (u32, u32, u32), k: int)
    requires
        0 < val.0, val.0 + val.1 <= evs.len(), evs[val.0 - 1] is Cached, evs[val.0 - 1]->Cached_key == key.1.0, evs[val.0 - 1]->Cached_n_events == val.1,
        clean(seg(evs, val.0 - 1)), val.2 == sum(raws(seg(evs, val.0 - 1))), from_copy(v, ops, old, at_ev(evs, 0, val.0 - 1), val.2 as int, key.0.0 as int, k),
    ensures entry_ok(v, evs, ops, old, key, val)
{
}
/// events that cover the tokens of a text
pub open spec fn salvageable(v: Env, w: spec_fn(NodeType) -> bool, evs: Seq<Event>) -> bool {
    &&& v.nw == non_ws(w, v.tokens, v.tokens.len() as int) && v.tokens.len() <= u32::MAX && lens(v.tokens) <= u32::MAX && evs.len() < 0x8000_0000
    &&& covers(v.inp(), raws(evs), 0, v.nw.len() as int) && noted(v.inp(), evs, 0)
}

pub proof fn lemma_covers_split(g: Inp, r: Seq<nat>, s: Seq<nat>, a: int, c: int)
    requires covers(g, r + s, a, c)
    ensures covers(g, r, a, a + sum(r)), covers(g, s, a + sum(r), c)
    decreases r.len()
{
    if r.len() == 0 {
        assert(r + s =~= s);
    } else {
        assert((r + s).skip(1) =~= r.skip(1) + s);
        lemma_covers_split(g, r.skip(1), s, a + r[0], c);
    }
}
/// where the events are among the tokens
pub proof fn lemma_at_ev(g: Inp, evs: Seq<Event>, i: int)
    requires covers(g, raws(evs), 0, g.toks.len() as int), 0 <= i < evs.len()
    ensures
        0 <= at_ev(evs, 0, i) <= at_ev(evs, 0, i + 1) <= g.toks.len(),
        at_ev(evs, 0, i + 1) == at_ev(evs, 0, i) + (match evs[i] { Event::Token { n_raw_tokens, .. } => n_raw_tokens as int, _ => 0 }),
        evs[i] is Token ==> contiguous(g, at_ev(evs, 0, i), evs[i]->Token_n_raw_tokens as nat),
{
    let (x, y) = (evs.take(i), evs.skip(i + 1));
    assert(evs =~= x + (seq![evs[i]] + y));
    assert(evs.take(i + 1) =~= x + seq![evs[i]]);
    lemma_depth_concat(x, seq![evs[i]] + y);
    lemma_depth_concat(x, seq![evs[i]]);
    lemma_depth_concat(seq![evs[i]], y);
    lemma_single(evs[i]);
    lemma_sum_concat(raws(x), raws(seq![evs[i]]));
    lemma_covers_split(g, raws(x), raws(seq![evs[i]]) + raws(y), 0, g.toks.len() as int);
    lemma_covers_split(g, raws(seq![evs[i]]), raws(y), at_ev(evs, 0, i), g.toks.len() as int);
    let r = raws(seq![evs[i]]);
    if r.len() > 0 { assert(r.skip(1) =~= Seq::<nat>::empty()); assert(sum(r.skip(1)) == 0); assert(r[0] == evs[i]->Token_n_raw_tokens); }
    lemma_covers_le(g, raws(y), at_ev(evs, 0, i) + sum(r), g.toks.len() as int);
}
/// after what is between the tokens, the next token starts
pub proof fn lemma_raw_at(v: Env, w: spec_fn(NodeType) -> bool, p: int, i: int)
    requires
        v.nw == non_ws(w, v.tokens, v.tokens.len() as int), v.tokens.len() <= u32::MAX, lens(v.tokens) <= u32::MAX, 0 <= p <= v.nw.len(),
        gap_from(v.nw, p) <= i <= v.tokens.len(), forall|j: int| gap_from(v.nw, p) <= j < i ==> w((#[trigger] v.tokens[j]).ty), i < v.tokens.len() ==> !w(v.tokens[i].ty),
    ensures i == raw_at(v, p)
{
    let n = v.tokens.len() as int;
    lemma_non_ws(w, v.tokens, n);
    assert(gap_ws(w, v.tokens, v.nw, p, n));
    if p < v.nw.len() { assert(nw_at(w, v.tokens, v.nw, p, n)); }
    if i < raw_at(v, p) { assert(w(v.tokens[i].ty)); }
    if i > raw_at(v, p) { assert(w(v.tokens[raw_at(v, p)].ty)); }
}
pub proof fn lemma_raw_range(v: Env, w: spec_fn(NodeType) -> bool, p: int, k: int)
    requires v.nw == non_ws(w, v.tokens, v.tokens.len() as int), v.tokens.len() <= u32::MAX, lens(v.tokens) <= u32::MAX, 0 <= p, 0 <= k, p + k <= v.nw.len(), contiguous(v.inp(), p, k as nat)
    ensures
        0 <= gap_from(v.nw, p) <= raw_at(v, p), raw_at(v, p) + k <= v.tokens.len(),
        k > 0 ==> gap_from(v.nw, p + k) == raw_at(v, p) + k,
        forall|j: int| gap_from(v.nw, p) <= j < raw_at(v, p) ==> w((#[trigger] v.tokens[j]).ty),
        raw_at(v, p) < v.tokens.len() ==> !w(v.tokens[raw_at(v, p)].ty),
{
    let n = v.tokens.len() as int;
    lemma_non_ws(w, v.tokens, n);
    assert(gap_ws(w, v.tokens, v.nw, p, n));
    if p < v.nw.len() { assert(nw_at(w, v.tokens, v.nw, p, n)); }
    if k > 0 {
        let g = v.inp();
        assert(g.toks[p + (k - 1)].raw == g.toks[p].raw + (k - 1));
        assert(nw_at(w, v.tokens, v.nw, p + k - 1, n));
    }
}

// ---- the code --------------------------------------------------------------------------------
/// the position is at a token, or after the last one
pub open spec fn here(toks: Seq<Token>, tok: usize, text: TextUnit) -> bool { tok <= toks.len() && text.0 == lens(toks.take(tok as int)) }

//@fn fall/parse/src/syn_engine/mod.rs salvage_segments/bump
pub fn salvage_segments__bump(old_tokens: &[Token], tok: &mut usize, text: &mut TextUnit)
    «requires here(old_tokens@, *old(tok), *old(text)), *old(tok) < old_tokens@.len(), lens(old_tokens@) <= u32::MAX, old_tokens@.len() <= u32::MAX
    ensures here(old_tokens@, *final(tok), *final(text)), *final(tok) == *old(tok) + 1»
{
    «proof {
        lemma_lens_mono(old_tokens@, *tok + 1, old_tokens@.len() as int);
        assert(old_tokens@.take(old_tokens@.len() as int) =~= old_tokens@);
        assert(old_tokens@.take(*tok + 1).drop_last() =~= old_tokens@.take(*tok as int));
    }»
    *text += old_tokens[*tok].len;
    *tok += 1;
}
//@end
//@fn fall/parse/src/syn_engine/mod.rs salvage_segments/skip_ws
pub fn salvage_segments__skip_ws(is_ws: &TokIsWs, old_tokens: &[Token], tok: &mut usize, text: &mut TextUnit)
    «requires here(old_tokens@, *old(tok), *old(text)), lens(old_tokens@) <= u32::MAX, old_tokens@.len() <= u32::MAX
    ensures here(old_tokens@, *final(tok), *final(text)), *old(tok) <= *final(tok),
        forall|j: int| *old(tok) <= j < *final(tok) ==> is_ws.is((#[trigger] old_tokens@[j]).ty), *final(tok) < old_tokens@.len() ==> !is_ws.is(old_tokens@[*final(tok) as int].ty)»
{
    while *tok < old_tokens.len() && is_ws.call(old_tokens[*tok])
    «invariant here(old_tokens@, *tok, *text), lens(old_tokens@) <= u32::MAX, old_tokens@.len() <= u32::MAX, *old(tok) <= *tok,
        forall|j: int| *old(tok) <= j < *tok ==> is_ws.is((#[trigger] old_tokens@[j]).ty),
     decreases old_tokens@.len() - *tok»
    {
        salvage_segments__bump(old_tokens, tok, text);
    }
}
//@end
//@fn fall/parse/src/syn_engine/mod.rs salvage_segments/eat_tokens
pub fn salvage_segments__eat_tokens(is_ws: &TokIsWs, old_tokens: &[Token], tok: &mut usize, text: &mut TextUnit, n: u16)
    «requires here(old_tokens@, *old(tok), *old(text)), *old(tok) + n <= old_tokens@.len(), lens(old_tokens@) <= u32::MAX, old_tokens@.len() <= u32::MAX
    ensures here(old_tokens@, *final(tok), *final(text)), *old(tok) + n <= *final(tok),
        forall|j: int| *old(tok) + n <= j < *final(tok) ==> is_ws.is((#[trigger] old_tokens@[j]).ty), *final(tok) < old_tokens@.len() ==> !is_ws.is(old_tokens@[*final(tok) as int].ty)»
{
    {
        let mut i__0 «: u16» = 0;
        let e__0 «: u16» = n;
        while i__0 < e__0
        «invariant i__0 <= e__0 == n, here(old_tokens@, *tok, *text), *tok == *old(tok) + i__0, *old(tok) + n <= old_tokens@.len(), lens(old_tokens@) <= u32::MAX, old_tokens@.len() <= u32::MAX
         decreases e__0 - i__0»
        {
            let j__0 = i__0;
            i__0 = i__0 + 1;
            salvage_segments__bump(old_tokens, tok, text);
        }
    }
    salvage_segments__skip_ws(is_ws, old_tokens, tok, text);
}
//@end
/// eating a token leads to where the next one starts
pub proof fn lemma_ate(v: Env, w: spec_fn(NodeType) -> bool, evs: Seq<Event>, i: int, tok: int)
    requires salvageable(v, w, evs), 0 <= i < evs.len(), evs[i] is Token, raw_at(v, at_ev(evs, 0, i)) + evs[i]->Token_n_raw_tokens <= tok <= v.tokens.len(),
        forall|j: int| raw_at(v, at_ev(evs, 0, i)) + evs[i]->Token_n_raw_tokens <= j < tok ==> w((#[trigger] v.tokens[j]).ty), tok < v.tokens.len() ==> !w(v.tokens[tok].ty),
    ensures tok == raw_at(v, at_ev(evs, 0, i + 1))
{
    let n = evs[i]->Token_n_raw_tokens as int;
    let p = at_ev(evs, 0, i);
    lemma_at_ev(v.inp(), evs, i);
    lemma_raw_range(v, w, p, n);
    lemma_raw_at(v, w, p + n, tok);
}
pub proof fn lemma_can_eat(v: Env, w: spec_fn(NodeType) -> bool, evs: Seq<Event>, i: int)
    requires salvageable(v, w, evs), 0 <= i < evs.len(), evs[i] is Token
    ensures raw_at(v, at_ev(evs, 0, i)) + evs[i]->Token_n_raw_tokens <= v.tokens.len(), at_ev(evs, 0, i + 1) == at_ev(evs, 0, i) + evs[i]->Token_n_raw_tokens, at_ev(evs, 0, i + 1) <= v.nw.len() <= u32::MAX
{
    lemma_non_ws(w, v.tokens, v.tokens.len() as int);
    lemma_at_ev(v.inp(), evs, i);
    lemma_raw_range(v, w, at_ev(evs, 0, i), evs[i]->Token_n_raw_tokens as int);
}

/// what the segments at `i` has so far
pub open spec fn part(evs: Seq<Event>, i: int, k: int) -> Seq<Event> { evs.subrange(i + 1, i + 1 + k) }
pub proof fn lemma_part(evs: Seq<Event>, i: int, k: int)
    requires 0 <= i, 0 <= k, i + 1 + k < evs.len()
    ensures
        part(evs, i, k + 1) == part(evs, i, k).push(evs[i + 1 + k]),
        sum(raws(part(evs, i, k + 1))) == sum(raws(part(evs, i, k))) + (match evs[i + 1 + k] { Event::Token { n_raw_tokens, .. } => n_raw_tokens as int, _ => 0 }),
        clean(part(evs, i, k + 1)) == (clean(part(evs, i, k)) && no_error(evs[i + 1 + k])),
{
    let e = evs[i + 1 + k];
    let (x, y) = (part(evs, i, k), part(evs, i, k + 1));
    assert(y =~= x.push(e));
    assert(y =~= x + seq![e]);
    lemma_depth_concat(x, seq![e]);
    lemma_single(e);
    lemma_sum_concat(raws(x), raws(seq![e]));
    let r = raws(seq![e]);
    if r.len() > 0 { assert(r.skip(1) =~= Seq::<nat>::empty()); assert(sum(r.skip(1)) == 0); assert(r[0] == e->Token_n_raw_tokens); }
    assert(y[k] == e);
    assert forall|j: int| 0 <= j < k implies y[j] == x[j] by {}
    if clean(y) { assert forall|j: int| 0 <= j < k implies no_error(#[trigger] x[j]) by { assert(no_error(y[j])); } }
}
/// a segment is where its events are
pub proof fn lemma_seg_at(evs: Seq<Event>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + 1 + n <= evs.len(), evs[i] is Cached
    ensures at_ev(evs, 0, i + 1 + n) == at_ev(evs, 0, i) + sum(raws(part(evs, i, n))), at_ev(evs, 0, i + 1) == at_ev(evs, 0, i)
    decreases n
{
    let x = evs.take(i);
    assert(evs.take(i + 1) =~= x + seq![evs[i]]);
    lemma_depth_concat(x, seq![evs[i]]);
    lemma_single(evs[i]);
    assert(raws(evs.take(i + 1)) =~= raws(x));
    assert(evs.take(i + 1 + n) =~= evs.take(i + 1) + part(evs, i, n));
    lemma_depth_concat(evs.take(i + 1), part(evs, i, n));
    lemma_sum_concat(raws(evs.take(i + 1)), raws(part(evs, i, n)));
}

pub proof fn lemma_lens_raw(v: Env, w: spec_fn(NodeType) -> bool, p: int, q: int)
    requires v.nw == non_ws(w, v.tokens, v.tokens.len() as int), v.tokens.len() <= u32::MAX, lens(v.tokens) <= u32::MAX, 0 <= p <= q <= v.nw.len()
    ensures raw_at(v, p) <= raw_at(v, q), text_at(v, p) <= text_at(v, q), 0 <= raw_at(v, p), raw_at(v, q) <= v.tokens.len()
    decreases q - p
{
    let n = v.tokens.len() as int;
    lemma_non_ws(w, v.tokens, n);
    assert(gap_ws(w, v.tokens, v.nw, q, n));
    if p < q {
        lemma_lens_raw(v, w, p, q - 1);
    }
    lemma_lens_mono(v.tokens, raw_at(v, p), raw_at(v, q));
}
//@fn fall/parse/src/syn_engine/mod.rs salvage_segments
pub fn salvage_segments(
    old_events: &[Event],
    old_tokens: &[Token],
    is_ws: &TokIsWs,
    edit: &TextEdit,
    «Ghost(v): Ghost<Env>, Ghost(old): Ghost<Seq<u8>>, Ghost(w): Ghost<spec_fn(NodeType) -> bool>,»
) -> «(r:» Cache «)
    requires v.tokens == old_tokens@, salvageable(v, w, old_events@), forall|ty: NodeType| #[trigger] is_ws.is(ty) == w(ty),
        ops_ok(edit.ops@, old.len() as int), ops_text(edit.ops@, old).len() <= u32::MAX, old.len() <= u32::MAX,
    ensures entries_ok(v, old_events@, edit.ops@, old, r)»
{
    «let ghost evs = old_events@;
    let ghost toks = old_tokens@;
    proof {
        assert(toks.take(0) =~= Seq::<Token>::empty());
        assert(evs.take(0) =~= Seq::<Event>::empty());
        reveal(noted);
    }»
    let mut result = Cache::new();

    let mut raw_token_pos «: usize» = 0;
    let mut text_pos = tu(0);

    salvage_segments__skip_ws(is_ws, old_tokens, &mut raw_token_pos, &mut text_pos);
    «proof { lemma_raw_at(v, w, 0, raw_token_pos as int); }»

    let mut events = slice_iter(&old_events);
    let mut start_event «: u32» = 0;

    loop
    «invariant_except_break
        events.i == start_event,
     invariant
        v.tokens == toks, toks == old_tokens@, evs == old_events@, forall|ty: NodeType| #[trigger] is_ws.is(ty) == w(ty), salvageable(v, w, evs), ops_ok(edit.ops@, old.len() as int), ops_text(edit.ops@, old).len() <= u32::MAX,
        events.wf(), events.s@ == evs, here(toks, raw_token_pos, text_pos), raw_token_pos == raw_at(v, at_ev(evs, 0, events.i as int)), at_ev(evs, 0, events.i as int) <= v.nw.len(),
        entries_ok(v, evs, edit.ops@, old, result),
     decreases evs.len() - events.i»
    {
        «let ghost i = events.i as int;»
        if let Some(event) = events.next() {
            start_event += 1;
            «proof { assert(noted_at(v.inp(), evs, 0, i)) by { reveal(noted); } lemma_at_ev(v.inp(), evs, i); if evs[i] is Token { lemma_can_eat(v, w, evs, i); } }»
            match *event {
                Event::Start { .. } => (),
                Event::End => (),
                Event::Token { n_raw_tokens, .. } =>
                    «{» salvage_segments__eat_tokens(is_ws, old_tokens, &mut raw_token_pos, &mut text_pos, n_raw_tokens) «; proof { lemma_ate(v, w, evs, i, raw_token_pos as int); } }»,

                Event::Cached { key, n_events, .. } => {
                    let start = text_pos;
                    let mut n_tokens = 0u32;
                    let mut has_error = false;
                    «let ghost p = at_ev(evs, 0, i);
                    proof { lemma_seg_at(evs, i, 0); assert(part(evs, i, 0) =~= Seq::<Event>::empty()); }»
                    {
                        let mut i__0 «: u32» = 0;
                        let e__0 «: u32» = n_events;
                        while i__0 < e__0
                        «invariant
                            i__0 <= e__0 == n_events, 0 <= i, i + 1 + n_events <= evs.len(), evs[i] is Cached, p == at_ev(evs, 0, i), 0 <= p,
                            v.tokens == toks, toks == old_tokens@, forall|ty: NodeType| #[trigger] is_ws.is(ty) == w(ty), salvageable(v, w, evs),
                            events.wf(), events.s@ == evs, events.i == i + 1 + i__0, here(toks, raw_token_pos, text_pos), raw_token_pos == raw_at(v, at_ev(evs, 0, events.i as int)), at_ev(evs, 0, events.i as int) <= v.nw.len(),
                            n_tokens == sum(raws(part(evs, i, i__0 as int))), has_error == !clean(part(evs, i, i__0 as int)), p + n_tokens == at_ev(evs, 0, events.i as int),
                         decreases e__0 - i__0»
                        {
                            let j__0 = i__0;
                            i__0 = i__0 + 1;
                            «let ghost k = events.i as int;
                            proof { lemma_part(evs, i, j__0 as int); lemma_at_ev(v.inp(), evs, k); if evs[k] is Token { lemma_can_eat(v, w, evs, k); } }»
                            match *events.next().unwrap() {
                                Event::Token { ty, n_raw_tokens } => {
                                    salvage_segments__eat_tokens(is_ws, old_tokens, &mut raw_token_pos, &mut text_pos, n_raw_tokens);
                                    «proof { lemma_ate(v, w, evs, k, raw_token_pos as int); }»
                                    n_tokens += n_raw_tokens as u32;
                                    has_error = (ty == ERROR) || has_error;
                                }
                                Event::Start { ty: ERROR, .. } => has_error = true,
                                _ => (),
                            }
                        }
                    }
                    if has_error {
                        start_event += n_events;
                        continue
                    }

                    let end = text_pos;
                    «proof { lemma_lens_raw(v, w, p, p + n_tokens); }»
                    let range = TextRange::from_to(start, end);

                    let mut inserted = tu(0);
                    {
                        let mut i__1: usize = 0;
                        while i__1 < edit.ops.len()
                        «invariant
                            i__1 <= edit.ops@.len(), ops_ok(edit.ops@, old.len() as int), ops_text(edit.ops@, old).len() <= u32::MAX,
                            inserted.0 == ops_text(edit.ops@.take(i__1 as int), old).len(), range.wf(), range.start == start, range.end == end,
                            0 <= i, start_event == i + 1, i + 1 + n_events <= evs.len(), evs[i] is Cached, evs[i]->Cached_key == key, evs[i]->Cached_n_events == n_events, p == at_ev(evs, 0, i),
                            n_tokens == sum(raws(seg(evs, i))), clean(seg(evs, i)), start.0 == text_at(v, p), end.0 == text_at(v, p + n_tokens),
                            entries_ok(v, evs, edit.ops@, old, result),
                         decreases edit.ops@.len() - i__1»
                        {
                            let j__1 = i__1;
                            i__1 = i__1 + 1;
                            let op = &edit.ops[j__1];
                            «proof { lemma_ops_at(edit.ops@, old, j__1 as int); assert(op_ok(edit.ops@[j__1 as int], old.len() as int)); }»
                            match *op {
                                TextEditOp::Copy(copy) => {
                                    if range.is_subrange_of(copy) && range.end() < copy.end() {
                                        let fixed_start = inserted + (start - copy.start());
                                        «proof { assert(from_copy(v, edit.ops@, old, p, n_tokens as int, fixed_start.0 as int, j__1 as int)); }»
                                        result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
                                        «proof { let z = start_event as int - 1; assert(z == i); assert(at_ev(evs, 0, z) == p); assert(sum(raws(seg(evs, z))) == n_tokens); assert(from_copy(v, edit.ops@, old, at_ev(evs, 0, z), n_tokens as int, fixed_start.0 as int, j__1 as int)); lemma_entry(v, evs, edit.ops@, old, (fixed_start, ExprRef(key)), (start_event, n_events, n_tokens), j__1 as int); assert(entry_ok(v, evs, edit.ops@, old, (fixed_start, ExprRef(key)), (start_event, n_events, n_tokens))); }»
                                    }
                                    inserted += copy.len()
                                }
                                TextEditOp::Insert(ref text) => inserted += text.as_text().len(),
                            }
                        }
                    }
                    start_event += n_events;
                }
            }
        } else {
            break;
        }
    }

    result
}
//@end


// ---- the same tokens after the edit ----------------------------------------------------------
pub open spec fn same_tok(g1: Inp, g2: Inp, p: int, a: int, i: int) -> bool {
    let (x, y) = (g1.toks[p + i], g2.toks[a + i]);
    &&& x.ty == y.ty && x.len == y.len && x.raw - g1.toks[p].raw == y.raw - g2.toks[a].raw && x.start - g1.toks[p].start == y.start - g2.toks[a].start
    &&& g1.text.subrange(x.start, x.start + x.len) == g2.text.subrange(y.start, y.start + y.len)
}
/// the `n` tokens from `p` on are those from `a` on: types, texts, and what is between them
pub open spec fn same_toks(g1: Inp, g2: Inp, p: int, a: int, n: int) -> bool {
    0 <= p && 0 <= a && 0 <= n && p + n <= g1.toks.len() && a + n <= g2.toks.len() && forall|i: int| 0 <= i < n ==> #[trigger] same_tok(g1, g2, p, a, i)
}
/// what a cached rule gave for its tokens, without an error, it gives for the same tokens elsewhere
pub open spec fn local_at(v1: Env, v2: Env, key: u32, p: int, b: int, ev: Seq<Event>, prev: Option<NodeType>, repl: Option<NodeTypeRef>) -> bool {
    forall|st: St, a: int, e: int| st_ok(v2, st) && same_toks(v1.inp(), v2.inp(), p, a, b - p) && a + (b - p) <= e <= v2.nw.len() ==>
        (#[trigger] (v2.q.s)(Item::E(ExprRef(key)), st.at(None, None), a, e)) == Some(Out { res: Some(a + (b - p)), ev, prev, repl })
}
pub open spec fn local(v1: Env, v2: Env) -> bool {
    forall|key: u32, st: St, e: int, p: int, b: int, ev: Seq<Event>, prev: Option<NodeType>, repl: Option<NodeTypeRef>|
        #[trigger] seg_of(v1.inp(), key, st, e, p, b, ev, prev, repl) && clean(ev) ==> local_at(v1, v2, key, p, b, ev, prev, repl)
}
pub proof fn lemma_rest_all<L: Lexer>(l: &L, s: Seq<u8>, toks: Seq<Token>, i: int)
    requires l.ok(), s.len() <= u32::MAX, toks == lex_spec(l, s), 0 <= i <= toks.len()
    ensures rest_at(l, s, toks, i, lens(toks.take(i)))
    decreases i
{
    if i == 0 {
        assert(toks.take(0) =~= Seq::<Token>::empty());
        assert(toks.skip(0) =~= toks);
        assert(s.skip(0) =~= s);
    } else {
        lemma_rest_all(l, s, toks, i - 1);
        let n = lens(toks.take(i - 1));
        if n >= s.len() {
            assert(s.skip(n).len() == 0);
            assert(toks.skip(i - 1).len() > 0);
            assert(false);
        }
        lemma_rest_step(l, s, toks, i - 1, n);
        assert(toks.take(i).drop_last() =~= toks.take(i - 1));
    }
}
/// tokens that are copied, with the start of what comes after them, are lexed the same
pub proof fn lemma_region<L: Lexer>(l: &L, old: Seq<u8>, new: Seq<u8>, t1: Seq<Token>, t2: Seq<Token>, c: TextRange, ep: int, i0: int, i1: int, j0: int)
    requires
        l.ok(), lookahead1(l), old.len() <= u32::MAX, new.len() <= u32::MAX, t1 == lex_spec(l, old), t2 == lex_spec(l, new),
        c.wf(), c.end.0 <= old.len(), bnd(old, c.end.0 as int), 0 <= ep, ep + c.length() <= new.len(), new.subrange(ep, ep + c.length()) == old.subrange(c.start.0 as int, c.end.0 as int),
        0 <= i0 <= i1 <= t1.len(), 0 <= j0 <= t2.len(), c.start.0 <= lens(t1.take(i0)), lens(t1.take(i1)) < c.end.0, lens(t2.take(j0)) - ep == lens(t1.take(i0)) - c.start.0,
        forall|i: int| i0 <= i < i1 ==> (#[trigger] t1[i]).ty != ERROR,
    ensures
        j0 + (i1 - i0) <= t2.len(), lens(t2.take(j0 + (i1 - i0))) - ep == lens(t1.take(i1)) - c.start.0,
        forall|m: int| 0 <= m < i1 - i0 ==> #[trigger] t2[j0 + m] == t1[i0 + m],
    decreases i1 - i0
{
    if i0 < i1 {
        let m = i1 - 1 - i0;
        lemma_lens_mono(t1, i1 - 1, i1);
        lemma_lens_mono(t1, i0, i1 - 1);
        lemma_region(l, old, new, t1, t2, c, ep, i0, i1 - 1, j0);
        let op = lens(t1.take(i1 - 1));
        let np = lens(t2.take(j0 + m));
        lemma_rest_all(l, old, t1, i1 - 1);
        lemma_rest_all(l, new, t2, j0 + m);
        lemma_rest_step(l, old, t1, i1 - 1, op);
        lemma_rest_step(l, new, t2, j0 + m, np);
        assert(t1.take(i1).drop_last() =~= t1.take(i1 - 1));
        assert(t2.take(j0 + m + 1).drop_last() =~= t2.take(j0 + m));
        lemma_reuse(l, old, new, c, ep, op, np);
        assert forall|k: int| 0 <= k < i1 - i0 implies #[trigger] t2[j0 + k] == t1[i0 + k] by {}
    }
}
pub open spec fn region(v1: Env, v2: Env, i0: int, i1: int, j0: int) -> bool {
    0 <= i0 <= i1 <= v1.tokens.len() && 0 <= j0 && j0 + (i1 - i0) <= v2.tokens.len() && forall|m: int| 0 <= m < i1 - i0 ==> #[trigger] v2.tokens[j0 + m] == v1.tokens[i0 + m]
}
pub open spec fn tokens_of(v: Env, w: spec_fn(NodeType) -> bool) -> bool { v.nw == non_ws(w, v.tokens, v.tokens.len() as int) && v.tokens.len() <= u32::MAX && lens(v.tokens) <= u32::MAX }
/// in the same tokens the same are not spaces
pub proof fn lemma_same_nw(v1: Env, v2: Env, w: spec_fn(NodeType) -> bool, p: int, n: int, a: int, i: int)
    requires tokens_of(v1, w), tokens_of(v2, w), 0 <= p, 0 <= i < n, p + n <= v1.nw.len(), 0 <= a < v2.nw.len(), region(v1, v2, raw_at(v1, p), raw_at(v1, p + n), v2.nw[a].1 as int)
    ensures a + i < v2.nw.len(), v2.nw[a + i].1 - v2.nw[a].1 == v1.nw[p + i].1 - v1.nw[p].1, 0 <= v1.nw[p + i].1 - v1.nw[p].1 < raw_at(v1, p + n) - raw_at(v1, p)
    decreases i
{
    let (n1, n2) = (v1.tokens.len() as int, v2.tokens.len() as int);
    lemma_non_ws(w, v1.tokens, n1);
    lemma_non_ws(w, v2.tokens, n2);
    lemma_lens_raw(v1, w, p + i + 1, p + n);
    lemma_lens_raw(v1, w, p, p + i);
    assert(gap_ws(w, v1.tokens, v1.nw, p + i + 1, n1));
    if i > 0 {
        lemma_same_nw(v1, v2, w, p, n, a, i - 1);
        let j0 = v2.nw[a].1 as int;
        let i0 = v1.nw[p].1 as int;
        assert(gap_ws(w, v1.tokens, v1.nw, p + i, n1));
        assert(gap_ws(w, v2.tokens, v2.nw, a + i, n2));
        assert(nw_at(w, v1.tokens, v1.nw, p + i, n1));
        let d = v1.nw[p + i].1 - i0;
        let x = gap_to(v2.nw, a + i, n2);
        assert(v2.tokens[j0 + d] == v1.tokens[i0 + d]);
        assert(gap_from(v2.nw, a + i) - j0 == gap_from(v1.nw, p + i) - i0);
        if x > j0 + d { assert(w(v2.tokens[j0 + d].ty)); }
        if x < j0 + d {
            assert(a + i < v2.nw.len());
            assert(nw_at(w, v2.tokens, v2.nw, a + i, n2));
            assert(v2.tokens[j0 + (x - j0)] == v1.tokens[i0 + (x - j0)]);
            assert(w(v1.tokens[i0 + (x - j0)].ty));
        }
    }
}
pub proof fn lemma_lens_region(t1: Seq<Token>, t2: Seq<Token>, i0: int, j0: int, m: int)
    requires 0 <= i0, 0 <= j0, 0 <= m, i0 + m <= t1.len(), j0 + m <= t2.len(), forall|k: int| 0 <= k < m ==> #[trigger] t2[j0 + k] == t1[i0 + k]
    ensures lens(t2.take(j0 + m)) - lens(t2.take(j0)) == lens(t1.take(i0 + m)) - lens(t1.take(i0))
    decreases m
{
    if m > 0 {
        lemma_lens_region(t1, t2, i0, j0, m - 1);
        assert(t1.take(i0 + m).drop_last() =~= t1.take(i0 + m - 1));
        assert(t2.take(j0 + m).drop_last() =~= t2.take(j0 + m - 1));
        assert(t2[j0 + (m - 1)] == t1[i0 + (m - 1)]);
    }
}
/// the tokens of an entry are in the new text
pub proof fn lemma_same_toks<L: Lexer>(l: &L, v1: Env, v2: Env, w: spec_fn(NodeType) -> bool, ops: Seq<TextEditOp>, k: int, p: int, n: int, a: int, t: int)
    requires
        tokens_of(v1, w), tokens_of(v2, w), l.ok(), lookahead1(l), relex_pre(l, v1.tokens, ops, v2.text@, v1.text@), v2.tokens == lex_spec(l, v2.text@), v2.text@.len() <= u32::MAX,
        !w(ERROR), from_copy(v1, ops, v1.text@, p, n, t, k), 0 <= p, 0 <= n, p + n <= v1.nw.len(), no_err(v1.inp(), p, n as nat), 0 <= a < v2.nw.len(), v2.nw[a].0.0 == t,
    ensures same_toks(v1.inp(), v2.inp(), p, a, n)
{
    let (n1, n2) = (v1.tokens.len() as int, v2.tokens.len() as int);
    let (old, new) = (v1.text@, v2.text@);
    let (g1, g2) = (v1.inp(), v2.inp());
    lemma_non_ws(w, v1.tokens, n1);
    lemma_non_ws(w, v2.tokens, n2);
    lemma_lens_raw(v1, w, p, p + n);
    let (i0, i1) = (raw_at(v1, p), raw_at(v1, p + n));
    assert(nw_at(w, v2.tokens, v2.nw, a, n2));
    let j0 = v2.nw[a].1 as int;
    let c = ops[k]->Copy_0;
    assert(op_ok(ops[k], old.len() as int));
    lemma_ops_at(ops, old, k);
    let ep = ops_text(ops.take(k), old).len() as int;
    assert forall|i: int| i0 <= i < i1 implies (#[trigger] v1.tokens[i]).ty != ERROR by { lemma_no_err_raw(v1, w, p, n, i); }
    if n > 0 { assert(nw_at(w, v1.tokens, v1.nw, p, n1)); }
    lemma_region(l, old, new, v1.tokens, v2.tokens, c, ep, i0, i1, j0);
    if n > 0 { lemma_same_nw(v1, v2, w, p, n, a, n - 1); }
    assert forall|i: int| 0 <= i < n implies #[trigger] same_tok(g1, g2, p, a, i) by { lemma_same_one(v1, v2, w, c, ep, p, n, a, i); }
}
/// one of them
pub proof fn lemma_same_one(v1: Env, v2: Env, w: spec_fn(NodeType) -> bool, c: TextRange, ep: int, p: int, n: int, a: int, i: int)
    requires
        tokens_of(v1, w), tokens_of(v2, w), c.wf(), c.end.0 <= v1.text@.len(), 0 <= ep, ep + c.length() <= v2.text@.len(),
        v2.text@.subrange(ep, ep + c.length()) == v1.text@.subrange(c.start.0 as int, c.end.0 as int),
        0 <= p, 0 <= i < n, p + n <= v1.nw.len(), 0 <= a < v2.nw.len(), region(v1, v2, raw_at(v1, p), raw_at(v1, p + n), v2.nw[a].1 as int),
        c.start.0 <= text_at(v1, p), text_at(v1, p + n) < c.end.0, v2.nw[a].0.0 - ep == text_at(v1, p) - c.start.0,
    ensures same_tok(v1.inp(), v2.inp(), p, a, i)
{
    let (n1, n2) = (v1.tokens.len() as int, v2.tokens.len() as int);
    let (i0, i1) = (raw_at(v1, p), raw_at(v1, p + n));
    let j0 = v2.nw[a].1 as int;
    lemma_non_ws(w, v1.tokens, n1);
    lemma_non_ws(w, v2.tokens, n2);
    lemma_same_nw(v1, v2, w, p, n, a, i);
    assert(nw_at(w, v1.tokens, v1.nw, p, n1));
    assert(nw_at(w, v1.tokens, v1.nw, p + i, n1));
    assert(nw_at(w, v2.tokens, v2.nw, a, n2));
    assert(nw_at(w, v2.tokens, v2.nw, a + i, n2));
    let m = v1.nw[p + i].1 - i0;
    assert(v2.tokens[j0 + m] == v1.tokens[i0 + m]);
    lemma_lens_region(v1.tokens, v2.tokens, i0, j0, m);
    lemma_lens_mono(v1.tokens, i0, i0 + m);
    lemma_lens_mono(v1.tokens, i0 + m + 1, i1);
    assert(v1.tokens.take(i0 + m + 1).drop_last() =~= v1.tokens.take(i0 + m));
    let (x, y) = (v1.inp().toks[p + i], v2.inp().toks[a + i]);
    lemma_sub_text(v1.text@, v2.text@, c, ep, x.start, y.start, x.len);
}
pub proof fn lemma_sub_text(old: Seq<u8>, new: Seq<u8>, c: TextRange, ep: int, x: int, y: int, len: int)
    requires c.wf(), c.end.0 <= old.len(), 0 <= ep, ep + c.length() <= new.len(), new.subrange(ep, ep + c.length()) == old.subrange(c.start.0 as int, c.end.0 as int),
        c.start.0 <= x, 0 <= len, x + len <= c.end.0, y - ep == x - c.start.0,
    ensures old.subrange(x, x + len) == new.subrange(y, y + len)
{
    let q = x - c.start.0;
    assert(old.subrange(x, x + len) =~= old.subrange(c.start.0 as int, c.end.0 as int).subrange(q, q + len));
    assert(new.subrange(y, y + len) =~= new.subrange(ep, ep + c.length()).subrange(q, q + len));
}
pub proof fn lemma_no_err_raw(v: Env, w: spec_fn(NodeType) -> bool, p: int, n: int, i: int)
    requires tokens_of(v, w), !w(ERROR), 0 <= p, 0 <= n, p + n <= v.nw.len(), no_err(v.inp(), p, n as nat), raw_at(v, p) <= i < raw_at(v, p + n)
    ensures v.tokens[i].ty != ERROR
    decreases n
{
    let n1 = v.tokens.len() as int;
    lemma_non_ws(w, v.tokens, n1);
    if n > 0 {
        lemma_lens_raw(v, w, p, p + n - 1);
        if i < raw_at(v, p + n - 1) {
            lemma_no_err_raw(v, w, p, n - 1, i);
        } else {
            assert(gap_ws(w, v.tokens, v.nw, p + n, n1));
            assert(v.inp().toks[p + n - 1].ty != ERROR);
        }
    }
}

// ---- what was noted holds after the edit -----------------------------------------------------
pub proof fn lemma_covers_moved(g1: Inp, g2: Inp, rs: Seq<nat>, p: int, b: int, a: int)
    requires covers(g1, rs, p, b), same_toks(g1, g2, p, a, b - p)
    ensures covers(g2, rs, a, a + (b - p))
    decreases rs.len()
{
    if rs.len() > 0 {
        let r = rs[0] as int;
        lemma_covers_le(g1, rs.skip(1), p + r, b);
        lemma_same_part(g1, g2, p, a, b - p, r, b - p - r);
        lemma_covers_moved(g1, g2, rs.skip(1), p + r, b, a + r);
        if r > 0 {
            assert(same_tok(g1, g2, p, a, 0));
            assert forall|i: int| 0 < i < r implies #[trigger] g2.toks[a + i].raw == g2.toks[a].raw + i by { assert(same_tok(g1, g2, p, a, i)); assert(g1.toks[p + i].raw == g1.toks[p].raw + i); }
        }
        assert(contiguous(g2, a, rs[0]));
    }
}
pub proof fn lemma_same_part(g1: Inp, g2: Inp, p: int, a: int, n: int, d: int, k: int)
    requires same_toks(g1, g2, p, a, n), 0 <= d, 0 <= k, d + k <= n
    ensures same_toks(g1, g2, p + d, a + d, k)
{
    assert forall|i: int| 0 <= i < k implies #[trigger] same_tok(g1, g2, p + d, a + d, i) by {
        assert(same_tok(g1, g2, p, a, d + i));
        assert(same_tok(g1, g2, p, a, d));
    }
}

pub proof fn lemma_at_mono(ev: Seq<Event>, a: int, i: int, j: int)
    requires 0 <= i <= j <= ev.len()
    ensures at_ev(ev, a, j) == at_ev(ev, a, i) + sum(raws(ev.subrange(i, j)))
{
    assert(ev.take(j) =~= ev.take(i) + ev.subrange(i, j));
    lemma_depth_concat(ev.take(i), ev.subrange(i, j));
    lemma_sum_concat(raws(ev.take(i)), raws(ev.subrange(i, j)));
}
/// a segment that was noted is as good for the same tokens
pub open spec fn moves(v1: Env, v2: Env) -> bool {
    &&& v1.rules == v2.rules && v1.tys == v2.tys && ctx_clean(v1.inp()) && local(v1, v2)
}
pub proof fn lemma_seg_moved(v1: Env, v2: Env, key: u32, st: St, e: int, p: int, b: int, ev: Seq<Event>, prev: Option<NodeType>, repl: Option<NodeTypeRef>, a: int)
    requires moves(v1, v2), seg_of(v1.inp(), key, st, e, p, b, ev, prev, repl), clean(ev), same_toks(v1.inp(), v2.inp(), p, a, b - p)
    ensures seg_of(v2.inp(), key, start_st(), v2.nw.len() as int, a, a + (b - p), ev, prev, repl)
{
    let (g1, g2) = (v1.inp(), v2.inp());
    assert(local_at(v1, v2, key, p, b, ev, prev, repl));
    let s = start_st();
    assert(st_ok(v2, s)) by { assert forall|i: int| 0 <= i < 16 implies #[trigger] arg_ok(v2, s.args, i) by {} }
    assert(s.at(None, None) == s);
    assert((v2.q.s)(Item::E(ExprRef(key)), s.at(None, None), a, v2.nw.len() as int) == Some(Out { res: Some(a + (b - p)), ev, prev, repl }));
    lemma_covers_moved(g1, g2, raws(ev), p, b, a);
    assert(is_cached(g2, ExprRef(key)));
}
pub proof fn lemma_noted_moved(v1: Env, v2: Env, evs: Seq<Event>, i: int, a: int)
    requires
        moves(v1, v2), noted(v1.inp(), evs, 0), covers(v1.inp(), raws(evs), 0, v1.nw.len() as int), 0 <= i < evs.len(), evs[i] is Cached, i + 1 + evs[i]->Cached_n_events <= evs.len(),
        clean(seg(evs, i)), same_toks(v1.inp(), v2.inp(), at_ev(evs, 0, i), a, sum(raws(seg(evs, i))) as int),
    ensures noted(v2.inp(), seg(evs, i), a)
{
    reveal(noted);
    let (g1, g2) = (v1.inp(), v2.inp());
    let x = seg(evs, i);
    let p = at_ev(evs, 0, i);
    let n = sum(raws(x)) as int;
    assert(noted_at(g1, evs, 0, i));
    lemma_seg_at(evs, i, 0);
    assert(part(evs, i, 0) =~= Seq::<Event>::empty());
    lemma_at_mono(evs, 0, i + 1, i + 1 + x.len());
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] noted_at(g2, x, a, j) by {
        let k = i + 1 + j;
        assert(x[j] == evs[k]);
        assert(no_error(x[j]));
        assert(noted_at(g1, evs, 0, k));
        assert(evs.subrange(i + 1, k) =~= x.take(j));
        lemma_at_mono(evs, 0, i + 1, k);
        let d = sum(raws(x.take(j))) as int;
        assert(at_ev(evs, 0, k) == p + d);
        assert(at_ev(x, a, j) == a + d);
        match x[j] {
            Event::Cached { key, n_events, prev, replacement } => {
                assert(nested_at(evs, i, k));
                let y = seg(x, j);
                assert(y =~= seg(evs, k));
                assert(clean(y)) by { assert forall|q: int| 0 <= q < y.len() implies no_error(#[trigger] y[q]) by { assert(no_error(x[j + 1 + q])); } }
                assert(seg_known(g1, evs, p + d, k));
                let m = sum(raws(y)) as int;
                let (st, e) = choose|st: St, e: int| #[trigger] seg_of(g1, evs[k]->Cached_key, st, e, p + d, p + d + sum(raws(seg(evs, k))), seg(evs, k), evs[k]->Cached_prev, evs[k]->Cached_replacement);
                lemma_seg_at(evs, k, 0);
                assert(part(evs, k, 0) =~= Seq::<Event>::empty());
                lemma_at_mono(evs, 0, k + 1, k + 1 + y.len());
                lemma_at_mono(evs, 0, k + 1 + y.len(), i + 1 + x.len());
                assert(evs.subrange(k + 1, k + 1 + y.len()) =~= y);
                assert(evs.subrange(i + 1, i + 1 + x.len()) =~= x);
                lemma_same_part(g1, g2, p, a, n, d, m);
                lemma_seg_moved(v1, v2, key, st, e, p + d, p + d + m, y, prev, replacement, a + d);
                assert(seg_known(g2, x, a + d, j));
                assert forall|q: int| 0 <= q <= j && (#[trigger] tgt(x, q)) is Some implies tgt(x, q)->0 <= j || tgt(x, q)->0 > j + x[j]->Cached_n_events by {
                    assert(x[q] == evs[i + 1 + q]);
                    assert(tgt(evs, i + 1 + q) is Some && tgt(evs, i + 1 + q)->0 == tgt(x, q)->0 + i + 1);
                }
                assert forall|q: int| j < q <= j + x[j]->Cached_n_events implies #[trigger] nested_at(x, j, q) by { assert(nested_at(evs, k, i + 1 + q)); }
            }
            Event::Token { ty, n_raw_tokens } => {
                lemma_at_ev(g1, evs, k);
                lemma_at_mono(evs, 0, k + 1, i + 1 + x.len());
                assert(evs.subrange(i + 1, i + 1 + x.len()) =~= x);
                assert forall|q: int| a + d <= q < a + d + n_raw_tokens implies (#[trigger] g2.toks[q]).ty != ERROR by {
                    assert(same_tok(g1, g2, p, a, q - a));
                    assert(g1.toks[p + (q - a)].ty != ERROR);
                }
            }
            _ => {}
        }
    }
}
/// the tokens of a segment without errors are not errors
pub proof fn lemma_seg_no_err(v1: Env, evs: Seq<Event>, i: int, n: int)
    requires ctx_clean(v1.inp()), noted(v1.inp(), evs, 0), covers(v1.inp(), raws(evs), 0, v1.nw.len() as int), 0 <= i < evs.len(), evs[i] is Cached, 0 <= n <= evs[i]->Cached_n_events, i + 1 + n <= evs.len(), clean(seg(evs, i))
    ensures no_err(v1.inp(), at_ev(evs, 0, i), (at_ev(evs, 0, i + 1 + n) - at_ev(evs, 0, i)) as nat), at_ev(evs, 0, i) <= at_ev(evs, 0, i + 1 + n) <= v1.nw.len()
    decreases n
{
    let g = v1.inp();
    reveal(noted);
    lemma_at_ev(g, evs, i);
    if n > 0 {
        let k = i + n;
        lemma_seg_no_err(v1, evs, i, n - 1);
        lemma_at_ev(g, evs, k);
        assert(noted_at(g, evs, 0, k));
        assert(noted_at(g, evs, 0, i));
        assert(no_error(seg(evs, i)[n - 1]));
        assert(seg(evs, i)[n - 1] == evs[k]);
        let p = at_ev(evs, 0, i);
        let m = at_ev(evs, 0, k + 1) - p;
        assert forall|q: int| p <= q < p + m implies (#[trigger] g.toks[q]).ty != ERROR by {}
    }
}
/// C05: what salvaged entries give is what the grammar gives on the new text
pub proof fn lemma_cache_ok<L: Lexer>(l: &L, v1: Env, v2: Env, w: spec_fn(NodeType) -> bool, evs: Seq<Event>, ops: Seq<TextEditOp>)
    requires
        salvageable(v1, w, evs), tokens_of(v2, w), l.ok(), lookahead1(l), relex_pre(l, v1.tokens, ops, v2.text@, v1.text@), v2.tokens == lex_spec(l, v2.text@), v2.text@.len() <= u32::MAX,
        !w(ERROR), moves(v1, v2), v2.cache matches Some((c, es)) && es@ == evs && entries_ok(v1, evs, ops, v1.text@, c),
    ensures cache_ok(v2)
{
    let (c, es) = v2.cache->0;
    let (g1, g2) = (v1.inp(), v2.inp());
    assert forall|t: TextUnit, x: ExprRef| #[trigger] hit_ok(v2, c, es@, (t, x)) by {
        if let Some((start, n, len)) = c.at((t, x)) {
            assert(entry_ok(v1, evs, ops, v1.text@, (t, x), (start, n, len)));
            let i = start - 1;
            let p = at_ev(evs, 0, i);
            let y = seg(evs, i);
            assert(y =~= evs.subrange(start as int, start + n));
            assert(noted_at(g1, evs, 0, i)) by { reveal(noted); }
            assert(seg_known(g1, evs, p, i));
            let (st1, e1) = choose|st: St, e: int| #[trigger] seg_of(g1, evs[i]->Cached_key, st, e, p, p + sum(raws(seg(evs, i))), seg(evs, i), evs[i]->Cached_prev, evs[i]->Cached_replacement);
            let k = choose|k: int| #[trigger] from_copy(v1, ops, v1.text@, p, len as int, t.0 as int, k);
            assert(ExprRef(evs[i]->Cached_key) == x);
            let (prev, repl) = (evs[i]->Cached_prev, evs[i]->Cached_replacement);
            lemma_seg_at(evs, i, n as int);
            assert(part(evs, i, n as int) =~= y);
            lemma_seg_no_err(v1, evs, i, n as int);
            assert forall|st: St, a: int, e: int| st_ok(v2, st) && 0 <= a && a < e <= v2.nw.len() && v2.nw[a].0 == t && a + len <= e implies
                (#[trigger] (v2.q.s)(Item::E(x), st.at(None, None), a, e)) == Some(Out { res: Some(a + len), ev: y, prev, repl }) && good(g2, y, a, a + len) by
            {
                lemma_same_toks(l, v1, v2, w, ops, k, p, len as int, a, t.0 as int);
                assert(local_at(v1, v2, x.0, p, p + len, y, prev, repl));
                lemma_seg_moved(v1, v2, x.0, st1, e1, p, p + len, y, prev, repl, a);
                lemma_noted_moved(v1, v2, evs, i, a);
            }
        }
    }
}

} // verus!
} // mod
