// Parse events: fall/parse/src/syn_engine/mod.rs
//@owner C13 C15
verus! {

//@item fall/parse/src/lib.rs struct:NodeTypeRef
«#[derive(Copy, Clone, PartialEq, Eq, Structural)]»
pub struct NodeTypeRef(pub u32);
//@end

//@item fall/parse/src/syn_engine/mod.rs enum:Event
«#[derive(Copy, Clone)]»
pub enum Event {
    Start { ty: NodeType, forward_parent: Option<u32> },
    Token { ty: NodeType, n_raw_tokens: u16 },
    End,
    Cached { key: u32, n_events: u32, prev: Option<NodeType>, replacement: Option<NodeTypeRef> },
}
//@end

// ---- nodes which are wrapped after the fact ---------------------------------------------------
/// the later event which starts the node around the node that starts at `i`
pub open spec fn tgt(evs: Seq<Event>, i: int) -> Option<int> {
    match evs[i] { Event::Start { forward_parent: Some(f), .. } => Some(i + f), _ => None }
}
/// no node started strictly inside is wrapped by something outside
pub open spec fn tgt_ok(evs: Seq<Event>, i: int) -> bool {
    tgt(evs, i) matches Some(t) ==> i < t < evs.len() && evs[t] is Start && forall|j: int| i < j < t && (#[trigger] tgt(evs, j)).is_some() ==> tgt(evs, j)->0 < t
}
pub open spec fn fp_ok(evs: Seq<Event>) -> bool { forall|i: int| 0 <= i < evs.len() ==> #[trigger] tgt_ok(evs, i) }
/// the start at `i` belongs before an earlier one
pub open spec fn moved(evs: Seq<Event>, i: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] tgt(evs, j) == Some(i) }
/// the node that starts at `i` and all the nodes around it that start later, innermost first
pub open spec fn chain(evs: Seq<Event>, i: int) -> Seq<int>
    decreases evs.len() - i
{
    match tgt(evs, i) {
        Some(t) => if 0 <= i < t < evs.len() { seq![i] + chain(evs, t) } else { seq![i] },
        None => seq![i],
    }
}
pub open spec fn plain_start(e: Event) -> Event { Event::Start { ty: e->Start_ty, forward_parent: None } }
/// outermost first
pub open spec fn chain_starts(evs: Seq<Event>, i: int) -> Seq<Event> {
    Seq::new(chain(evs, i).len(), |k: int| plain_start(evs[chain(evs, i)[chain(evs, i).len() - 1 - k]]))
}
pub open spec fn placed(evs: Seq<Event>, i: int) -> Seq<Event> {
    if moved(evs, i) { Seq::empty() } else if tgt(evs, i).is_some() { chain_starts(evs, i) } else { seq![evs[i]] }
}
/// every start comes before the start it is wrapped around, outermost first
pub open spec fn in_place(evs: Seq<Event>, n: int) -> Seq<Event>
    decreases n
{
    if n <= 0 { Seq::empty() } else { in_place(evs, n - 1) + placed(evs, n - 1) }
}
pub open spec fn delta(e: Event) -> int { match e { Event::Start { .. } => 1, Event::End => -1, _ => 0int } }
pub open spec fn depth(evs: Seq<Event>) -> int
    decreases evs.len()
{
    if evs.len() == 0 { 0 } else { depth(evs.drop_last()) + delta(evs.last()) }
}
pub open spec fn inside(evs: Seq<Event>, n: int) -> bool { depth(evs.take(n)) >= 1 }
/// starts and ends match, and the first node contains all the others
pub open spec fn balanced(evs: Seq<Event>) -> bool {
    depth(evs) == 0 && evs.len() > 0 && forall|n: int| 0 < n < evs.len() ==> #[trigger] inside(evs, n)
}
/// sizes of the tokens
pub open spec fn raws(evs: Seq<Event>) -> Seq<nat>
    decreases evs.len()
{
    if evs.len() == 0 { Seq::empty() } else {
        match evs.last() { Event::Token { n_raw_tokens, .. } => raws(evs.drop_last()).push(n_raw_tokens as nat), _ => raws(evs.drop_last()) }
    }
}
pub proof fn lemma_chain(evs: Seq<Event>, i: int)
    requires fp_ok(evs), 0 <= i < evs.len(), evs[i] is Start
    ensures chain(evs, i).len() >= 1, chain(evs, i)[0] == i,
        forall|k: int| 0 <= k < chain(evs, i).len() ==> i <= #[trigger] chain(evs, i)[k] < evs.len() && evs[chain(evs, i)[k]] is Start,
        forall|k: int| 0 <= k < chain(evs, i).len() - 1 ==> tgt(evs, #[trigger] chain(evs, i)[k]) == Some(chain(evs, i)[k + 1]) && chain(evs, i)[k] < chain(evs, i)[k + 1],
        tgt(evs, chain(evs, i).last()).is_none(),
        tgt(evs, i).is_some() ==> chain(evs, i).len() >= 2,
    decreases evs.len() - i
{
    assert(tgt_ok(evs, i));
    if let Some(t) = tgt(evs, i) {
        lemma_chain(evs, t);
        let (c, d) = (chain(evs, i), chain(evs, t));
        assert(c == seq![i] + d);
        assert forall|k: int| 0 <= k < c.len() implies i <= #[trigger] c[k] < evs.len() && evs[c[k]] is Start by { if k > 0 { assert(c[k] == d[k - 1]); } }
        assert forall|k: int| 0 <= k < c.len() - 1 implies tgt(evs, #[trigger] c[k]) == Some(c[k + 1]) && c[k] < c[k + 1] by { if k > 0 { assert(c[k] == d[k - 1]); assert(c[k + 1] == d[k]); } }
        assert(c.last() == d.last());
    }
}
/// inside of a wrapped node and its wrapper the chains stay
pub proof fn lemma_chain_below(evs: Seq<Event>, j: int, i: int)
    requires fp_ok(evs), 0 <= j < i < evs.len(), tgt(evs, j).is_some(), i < tgt(evs, j)->0, evs[i] is Start
    ensures forall|k: int| 0 <= k < chain(evs, i).len() ==> #[trigger] chain(evs, i)[k] < tgt(evs, j)->0
    decreases evs.len() - i
{
    assert(tgt_ok(evs, j));
    assert(tgt_ok(evs, i));
    if let Some(t) = tgt(evs, i) {
        lemma_chain_below(evs, j, t);
        assert forall|k: int| 0 <= k < chain(evs, i).len() implies #[trigger] chain(evs, i)[k] < tgt(evs, j)->0 by { if k > 0 { assert(chain(evs, i)[k] == chain(evs, t)[k - 1]); } }
    }
}
pub proof fn lemma_depth_concat(a: Seq<Event>, b: Seq<Event>)
    ensures depth(a + b) == depth(a) + depth(b), raws(a + b) == raws(a) + raws(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(raws(a) + raws(b) =~= raws(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_depth_concat(a, b.drop_last());
        assert(raws(a + b) =~= raws(a) + raws(b));
    }
}
pub proof fn lemma_starts_depth(s: Seq<Event>)
    requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) is Start
    ensures depth(s) == s.len(), raws(s) == Seq::<nat>::empty()
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] s.drop_last()[k]) is Start by { assert(s[k] is Start); }
        lemma_starts_depth(s.drop_last());
        assert(s[s.len() - 1] is Start);
    }
}


} // verus!
