// The subsequence matcher of symbol search: lang/rust/src/editor/fst_subseq.rs
//@owner C18
//@rewrite & 'a str ==> & 'a Str
verus! {

impl Str {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// `AsRef<str>`
pub trait AsStr {
    spec fn str_of(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &Str) ensures r@ == self.str_of();
}

// ---- subsequences
/// the first `i` bytes of `q` can be found, in order, in the first `n` bytes of `s`
pub open spec fn subseq(q: Seq<u8>, i: int, s: Seq<u8>, n: int) -> bool
    decreases n
{
    if i <= 0 { true } else if n <= 0 { false } else {
        subseq(q, i, s, n - 1) || (q[i - 1] == s[n - 1] && subseq(q, i - 1, s, n - 1))
    }
}
/// the same with the places written out
pub open spec fn places(q: Seq<u8>, i: int, s: Seq<u8>, n: int, at: Seq<int>) -> bool {
    at.len() == i && (forall|a: int, b: int| 0 <= a < b < i ==> #[trigger] at[a] < #[trigger] at[b]) && forall|a: int| 0 <= a < i ==> 0 <= #[trigger] at[a] < n && s[at[a]] == q[a]
}
pub proof fn lemma_places(q: Seq<u8>, i: int, s: Seq<u8>, n: int)
    requires 0 <= i <= q.len(), 0 <= n <= s.len()
    ensures subseq(q, i, s, n) <==> exists|at: Seq<int>| #[trigger] places(q, i, s, n, at)
    decreases n
{
    if i == 0 { assert(places(q, 0, s, n, Seq::<int>::empty())); }
    else if n == 0 { assert forall|at: Seq<int>| !#[trigger] places(q, i, s, n, at) by { if places(q, i, s, n, at) { assert(at[0] < 0); } } }
    else {
        lemma_places(q, i, s, n - 1);
        lemma_places(q, i - 1, s, n - 1);
        if subseq(q, i, s, n - 1) { let at = choose|at: Seq<int>| #[trigger] places(q, i, s, n - 1, at); assert(places(q, i, s, n, at)); }
        if q[i - 1] == s[n - 1] && subseq(q, i - 1, s, n - 1) {
            let at = choose|at: Seq<int>| #[trigger] places(q, i - 1, s, n - 1, at);
            assert(places(q, i, s, n, at.push(n - 1)));
        }
        assert forall|at: Seq<int>| #[trigger] places(q, i, s, n, at) implies subseq(q, i, s, n) by {
            assert(0 <= at[i - 1] < n && s[at[i - 1]] == q[i - 1]);
            if at[i - 1] == n - 1 {
                assert forall|a: int| 0 <= a < i - 1 implies 0 <= #[trigger] at.drop_last()[a] < n - 1 && s[at.drop_last()[a]] == q[a] by { assert(at[a] < at[i - 1]); }
                assert(places(q, i - 1, s, n - 1, at.drop_last()));
            } else {
                assert forall|a: int| 0 <= a < i implies 0 <= #[trigger] at[a] < n - 1 && s[at[a]] == q[a] by { if a < i - 1 { assert(at[a] < at[i - 1]); } }
                assert(places(q, i, s, n - 1, at));
            }
        }
    }
}
/// a shorter query is found as well
pub proof fn lemma_shorter(q: Seq<u8>, i: int, j: int, s: Seq<u8>, n: int)
    requires 0 <= j <= i, subseq(q, i, s, n)
    ensures subseq(q, j, s, n)
    decreases n
{
    if j > 0 {
        if subseq(q, i, s, n - 1) { lemma_shorter(q, i, j, s, n - 1); }
        else if j == i {}
        else { lemma_shorter(q, i - 1, j, s, n - 1); }
    }
}
/// how much of the query the first `n` bytes of a name hold: the largest findable prefix
pub open spec fn longest(q: Seq<u8>, s: Seq<u8>, n: int, k: int) -> bool {
    0 <= k <= q.len() && subseq(q, k, s, n) && (k < q.len() ==> !subseq(q, k + 1, s, n))
}
pub proof fn lemma_longest(q: Seq<u8>, s: Seq<u8>, n: int, k: int)
    requires longest(q, s, n, k), 0 <= n < s.len()
    ensures longest(q, s, n + 1, if k < q.len() && q[k] == s[n] { k + 1 } else { k })
{
    if k < q.len() {
        if q[k] == s[n] {
            if k + 1 < q.len() {
                if subseq(q, k + 2, s, n) { lemma_shorter(q, k + 2, k + 1, s, n); }
            }
        }
    }
}
/// the matcher's state after `n` bytes of a name, by the functions of the automaton
pub open spec fn state_after(a: FstSubSeq, s: Seq<u8>, n: int) -> usize
    decreases n
{
    if n <= 0 { a.start_s() } else { a.accept_s(state_after(a, s, n - 1), s[n - 1]) }
}
impl<'a> FstSubSeq<'a> {
    pub open spec fn q(self) -> Seq<u8> { self.query@ }
    // what the functions below are proved to return
    pub open spec fn start_s(self) -> usize { 0 }
    pub open spec fn accept_s(self, state: usize, byte: u8) -> usize { if state < self.q().len() && byte == self.q()[state as int] { (state + 1) as usize } else { state } }
    pub open spec fn match_s(self, state: usize) -> bool { state == self.q().len() }
    pub open spec fn always_s(self, state: usize) -> bool { state == self.q().len() }
}
pub proof fn lemma_state(a: FstSubSeq, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), a.q().len() <= usize::MAX
    ensures longest(a.q(), s, n, state_after(a, s, n) as int)
    decreases n
{
    if n > 0 {
        lemma_state(a, s, n - 1);
        lemma_longest(a.q(), s, n - 1, state_after(a, s, n - 1) as int);
    }
}
/// C18: the matcher accepts exactly the names that hold the query as a subsequence
pub proof fn lemma_accepts(a: FstSubSeq, s: Seq<u8>)
    requires a.q().len() <= usize::MAX
    ensures a.match_s(state_after(a, s, s.len() as int)) <==> exists|at: Seq<int>| #[trigger] places(a.q(), a.q().len() as int, s, s.len() as int, at)
{
    lemma_state(a, s, s.len() as int);
    let k = state_after(a, s, s.len() as int) as int;
    lemma_places(a.q(), a.q().len() as int, s, s.len() as int);
    if k < a.q().len() && subseq(a.q(), a.q().len() as int, s, s.len() as int) { lemma_shorter(a.q(), a.q().len() as int, k + 1, s, s.len() as int); }
}
/// C18: once a prefix is said to match always, every extension matches
pub proof fn lemma_always(a: FstSubSeq, s: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m <= s.len(), a.always_s(state_after(a, s, n))
    ensures a.match_s(state_after(a, s, m))
    decreases m
{
    if n < m { lemma_always(a, s, n, m - 1); }
}

//@item lang/rust/src/editor/fst_subseq.rs struct:FstSubSeq
«#[derive(Clone, Copy)]»
pub struct FstSubSeq<'a> { pub query: &'a Str }
//@end

impl<'a> FstSubSeq<'a> {
//@rewrite1 AsRef < Str > ==> AsStr
//@rewrite1 AsRef < str > ==> AsStr
//@fn lang/rust/src/editor/fst_subseq.rs FstSubSeq::new
    pub fn new<S: AsStr>(query: &'a S) -> «(r:» FstSubSeq<'a> «) ensures r.q() == query.str_of()» {
        FstSubSeq { query: query.as_ref() }
    }
//@end
//@rewrite1 fn start ==> pub fn start
//@fn lang/rust/src/editor/fst_subseq.rs <FstSubSeq as Automaton>::start
    pub fn start(&self) -> «(r:» usize «) ensures r == self.start_s()» {
        0
    }
//@end
//@rewrite1 fn is_match ==> pub fn is_match
//@fn lang/rust/src/editor/fst_subseq.rs <FstSubSeq as Automaton>::is_match
    pub fn is_match(&self, p__0: &usize) -> «(r:» bool «) requires *p__0 <= self.q().len() ensures r == self.match_s(*p__0)» {
        let state = (*p__0);
        state == self.query.len()
    }
//@end
//@rewrite1 fn accept ==> pub fn accept
//@fn lang/rust/src/editor/fst_subseq.rs <FstSubSeq as Automaton>::accept
    pub fn accept(&self, p__0: &usize, byte: u8) -> «(r:» usize «) requires *p__0 <= self.q().len() ensures r == self.accept_s(*p__0, byte)» {
        let state = (*p__0);
        if state >= self.query.len() {
            return state;
        }
        if byte == self.query.as_bytes()[state] {
            return state + 1;
        }
        return state;
    }
//@end
//@rewrite1 fn can_match ==> pub fn can_match
//@fn lang/rust/src/editor/fst_subseq.rs <FstSubSeq as Automaton>::can_match
    pub fn can_match(&self, p__0: &usize) -> «(r:» bool «) ensures r» {
        true
    }
//@end
//@rewrite1 fn will_always_match ==> pub fn will_always_match
//@fn lang/rust/src/editor/fst_subseq.rs <FstSubSeq as Automaton>::will_always_match
    pub fn will_always_match(&self, p__0: &usize) -> «(r:» bool «) requires *p__0 <= self.q().len() ensures r == self.always_s(*p__0)» {
        let state = (*p__0);
        state == self.query.len()
    }
//@end
}

} // verus!
