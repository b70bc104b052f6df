// From parse events to the tree: fall/parse/src/syn_engine/convert.rs
//@owner C15
//@rewrite & 'a dyn Fn ( NodeType ) -> bool ==> &'a IsWs
//@rewrite & dyn Fn ( NodeType ) -> bool ==> &IsWs
//@rewrite & 'a dyn Fn ( NodeType , & [ ( NodeType , Text ) ] , bool ) -> usize ==> &'a Binder
//@rewrite & dyn Fn ( NodeType , & [ ( NodeType , Text ) ] , bool ) -> usize ==> &Binder
verus! {


/// `&dyn Fn(NodeType) -> bool`
#[verifier::external_body]
pub struct IsWs { x: u8 }
impl IsWs {
    pub uninterp spec fn is(&self, ty: NodeType) -> bool;
    #[verifier::external_body]
    pub fn call(&self, ty: NodeType) -> (r: bool)
        ensures r == self.is(ty)
    { unimplemented!() }
}
/// `&dyn Fn(NodeType, &[(NodeType, Text)], bool) -> usize`: a function of the type of the node, the
/// types and texts of the adjacent spaces, and the side
#[verifier::external_body]
pub struct Binder { x: u8 }
pub open spec fn spaces_ok(ws: Seq<(NodeType, Text)>) -> bool { forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).1.wf() && ws[i].1.bounded() }
pub open spec fn spaces(ws: Seq<(NodeType, Text)>) -> Seq<(NodeType, Seq<u8>)> { Seq::new(ws.len(), |i: int| (ws[i].0, ws[i].1@)) }
impl Binder {
    pub uninterp spec fn claims(&self, ty: NodeType, ws: Seq<(NodeType, Seq<u8>)>, leading: bool) -> nat;
    /// a binder claims no more spaces than there are
    pub open spec fn ok(&self) -> bool {
        forall|ty: NodeType, ws: Seq<(NodeType, Seq<u8>)>, leading: bool| #[trigger] self.claims(ty, ws, leading) <= ws.len()
    }
    #[verifier::external_body]
    pub fn call(&self, ty: NodeType, ws: &[(NodeType, Text)], leading: bool) -> (r: usize)
        requires spaces_ok(ws@)
        ensures r == self.claims(ty, spaces(ws@), leading)
    { unimplemented!() }
}

//@item fall/parse/src/syn_engine/convert.rs struct:Convertor
pub struct Convertor<'a> {
    pub is_whitespace: &'a IsWs,
    pub whitespace_binder: &'a Binder,
}
//@end
//@item fall/parse/src/syn_engine/convert.rs struct:Conversion
pub struct Conversion {
    pub right_edge: usize,
    pub n_events: usize,
}
//@end

// ---- what a sequence of events means ---------------------------------------------------------
pub struct TokV { pub ty: NodeType, pub len: int, pub text: Seq<u8> }
pub open spec fn tokv(t: (Token, Text)) -> TokV { TokV { ty: t.0.ty, len: t.0.len.0 as int, text: t.1@ } }
pub open spec fn tokvs(s: Seq<(Token, Text)>) -> Seq<TokV> { Seq::new(s.len(), |i: int| tokv(s[i])) }
pub open spec fn toks_ok(s: Seq<(Token, Text)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.wf() && s[i].1.bounded() }
pub open spec fn spaces_of(s: Seq<TokV>) -> Seq<(NodeType, Seq<u8>)> { Seq::new(s.len(), |i: int| (s[i].ty, s[i].text)) }
/// total length of tokens
pub open spec fn sum_len(s: Seq<TokV>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { sum_len(s.drop_last()) + s.last().len }
}
/// a leaf per token
pub open spec fn leaves(b: BV, s: Seq<TokV>) -> BV
    decreases s.len()
{
    if s.len() == 0 { b } else { leaves(b, s.drop_last()).leaf(s.last().ty, s.last().len) }
}
/// the state of the conversion: tokens not placed yet, the tree so far, types of the open nodes
pub struct CS { pub rest: Seq<TokV>, pub b: BV, pub tys: Seq<NodeType> }
impl CS {
    /// the next `n` tokens become leaves of the node which is open
    pub open spec fn take(self, n: nat) -> CS { CS { rest: self.rest.skip(n as int), b: leaves(self.b, self.rest.take(n as int)), tys: self.tys } }
    pub open spec fn open(self, ty: NodeType) -> CS { CS { b: self.b.open(ty), tys: self.tys.push(ty), rest: self.rest } }
    pub open spec fn close(self) -> CS { CS { b: self.b.close(), tys: self.tys.drop_last(), rest: self.rest } }
    /// the next `n` tokens become one leaf
    pub open spec fn leaf(self, ty: NodeType, n: nat) -> CS {
        CS { rest: self.rest.skip(n as int), b: self.b.leaf(ty, sum_len(self.rest.take(n as int))), tys: self.tys }
    }
}

impl<'a> Convertor<'a> {
    /// number of spaces at the start
    pub open spec fn ws_run(&self, s: Seq<TokV>) -> nat
        decreases s.len()
    {
        if s.len() == 0 || !self.is_whitespace.is(s[0].ty) { 0 } else { 1 + self.ws_run(s.skip(1)) }
    }
    pub open spec fn claimed(&self, ty: NodeType, s: Seq<TokV>, leading: bool) -> nat {
        self.whitespace_binder.claims(ty, spaces_of(s.take(self.ws_run(s) as int)), leading)
    }
    /// a node starts after the spaces before it, except for those the binder claims for it; it ends
    /// with the spaces after it which the binder claims for it; a token comes after all spaces
    pub open spec fn step(&self, e: Event, s: CS) -> CS {
        match e {
            Event::Start { ty, .. } => s.take((self.ws_run(s.rest) - self.claimed(ty, s.rest, true)) as nat).open(ty),
            Event::Token { ty, n_raw_tokens } => s.take(self.ws_run(s.rest)).leaf(ty, n_raw_tokens as nat),
            Event::End => s.take(self.claimed(s.tys.last(), s.rest, false)).close(),
            Event::Cached { .. } => s,
        }
    }
    pub open spec fn run(&self, evs: Seq<Event>, s: CS) -> CS
        decreases evs.len()
    {
        if evs.len() == 0 { s } else { self.step(evs.last(), self.run(evs.drop_last(), s)) }
    }
    /// there are enough tokens for the events
    pub open spec fn fits(&self, evs: Seq<Event>, rest: Seq<TokV>) -> bool
        decreases evs.len()
    {
        if evs.len() == 0 { true } else {
            match evs[0] {
                Event::Token { n_raw_tokens, .. } => {
                    let n = self.ws_run(rest) + n_raw_tokens;
                    n <= rest.len() && self.fits(evs.skip(1), rest.skip(n as int))
                }
                _ => self.fits(evs.skip(1), rest),
            }
        }
    }
    /// the tokens which are left when all token events are done: those after the last one
    pub open spec fn after(&self, evs: Seq<Event>, rest: Seq<TokV>) -> Seq<TokV>
        decreases evs.len()
    {
        if evs.len() == 0 { rest } else {
            match evs[0] {
                Event::Token { n_raw_tokens, .. } => self.after(evs.skip(1), rest.skip(self.ws_run(rest) + n_raw_tokens)),
                _ => self.after(evs.skip(1), rest),
            }
        }
    }
    /// the binder claims everything after a node of the type
    pub open spec fn takes_all(&self, ty: NodeType) -> bool {
        forall|ws: Seq<(NodeType, Seq<u8>)>| #[trigger] self.whitespace_binder.claims(ty, ws, false) == ws.len()
    }
    pub proof fn lemma_ws_run(&self, s: Seq<TokV>)
        ensures self.ws_run(s) <= s.len(), forall|i: int| 0 <= i < self.ws_run(s) ==> self.is_whitespace.is((#[trigger] s[i]).ty),
            self.ws_run(s) < s.len() ==> !self.is_whitespace.is(s[self.ws_run(s) as int].ty)
        decreases s.len()
    {
        if s.len() > 0 && self.is_whitespace.is(s[0].ty) {
            self.lemma_ws_run(s.skip(1));
            assert forall|i: int| 0 <= i < self.ws_run(s) implies self.is_whitespace.is((#[trigger] s[i]).ty) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
        }
    }
    pub proof fn lemma_ws_run_is(&self, s: Seq<TokV>, n: nat)
        requires n <= s.len(), forall|i: int| 0 <= i < n ==> self.is_whitespace.is((#[trigger] s[i]).ty), n < s.len() ==> !self.is_whitespace.is(s[n as int].ty)
        ensures self.ws_run(s) == n
    {
        self.lemma_ws_run(s);
        let m = self.ws_run(s);
        if m < n { assert(self.is_whitespace.is(s[m as int].ty)); }
        if n < m { assert(self.is_whitespace.is(s[n as int].ty)); }
    }
    pub proof fn lemma_ws_run_skip(&self, s: Seq<TokV>, n: nat)
        requires n <= self.ws_run(s)
        ensures self.ws_run(s.skip(n as int)) == self.ws_run(s) - n, s.skip(n as int).skip(self.ws_run(s) - n) == s.skip(self.ws_run(s) as int)
    {
        self.lemma_ws_run(s);
        let m = (self.ws_run(s) - n) as nat;
        let r = s.skip(n as int);
        assert forall|i: int| 0 <= i < m implies self.is_whitespace.is((#[trigger] r[i]).ty) by { assert(r[i] == s[n + i]); }
        self.lemma_ws_run_is(r, m);
        assert(r.skip(m as int) =~= s.skip(self.ws_run(s) as int));
    }
    /// placing some of the spaces early changes nothing for the tokens
    pub proof fn lemma_fits_skip(&self, evs: Seq<Event>, rest: Seq<TokV>, n: nat)
        requires self.fits(evs, rest), n <= self.ws_run(rest)
        ensures self.fits(evs, rest.skip(n as int))
        decreases evs.len()
    {
        self.lemma_ws_run(rest);
        self.lemma_ws_run_skip(rest, n);
        if evs.len() > 0 {
            match evs[0] {
                Event::Token { n_raw_tokens, .. } => {
                    assert(rest.skip(n as int).skip(self.ws_run(rest.skip(n as int)) + n_raw_tokens) =~= rest.skip(self.ws_run(rest) + n_raw_tokens));
                }
                _ => self.lemma_fits_skip(evs.skip(1), rest, n),
            }
        }
    }
    pub proof fn lemma_run_concat(&self, a: Seq<Event>, b: Seq<Event>, s: CS)
        ensures self.run(a + b, s) == self.run(b, self.run(a, s))
        decreases b.len()
    {
        if b.len() == 0 {
            assert(a + b =~= a);
        } else {
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
            self.lemma_run_concat(a, b.drop_last(), s);
        }
    }
    pub proof fn lemma_run_push(&self, a: Seq<Event>, e: Event, s: CS)
        ensures self.run(a.push(e), s) == self.step(e, self.run(a, s))
    {
        assert(a.push(e).drop_last() =~= a);
    }
}

/// number of events up to and including the end of the node in which the events are, `d` levels up
pub open spec fn closing(evs: Seq<Event>, d: nat) -> Option<nat>
    decreases evs.len()
{
    if evs.len() == 0 { None } else {
        let r = match evs[0] {
            Event::End => if d == 0 { Some(0nat) } else { closing(evs.skip(1), (d - 1) as nat) },
            Event::Start { .. } => closing(evs.skip(1), d + 1),
            _ => closing(evs.skip(1), d),
        };
        match r { Some(n) => Some(n + 1), None => None }
    }
}
pub proof fn lemma_closing(evs: Seq<Event>, d: nat)
    requires closing(evs, d).is_some()
    ensures 0 < closing(evs, d)->0 <= evs.len()
    decreases evs.len()
{
    if evs.len() > 0 {
        match evs[0] {
            Event::End => if d > 0 { lemma_closing(evs.skip(1), (d - 1) as nat); },
            Event::Start { .. } => lemma_closing(evs.skip(1), d + 1),
            _ => lemma_closing(evs.skip(1), d),
        }
    }
}
/// to leave `d + 1` nodes is to leave one and then `d`
pub proof fn lemma_closing_step(evs: Seq<Event>, d: nat, k: nat)
    requires closing(evs, d + k + 1).is_some()
    ensures closing(evs, k).is_some(), closing(evs.skip(closing(evs, k)->0 as int), d).is_some(),
        closing(evs, d + k + 1)->0 == closing(evs, k)->0 + closing(evs.skip(closing(evs, k)->0 as int), d)->0
    decreases evs.len()
{
    let t = evs.skip(1);
    match evs[0] {
        Event::End => if k > 0 {
            lemma_closing_step(t, d, (k - 1) as nat);
            lemma_closing(t, (k - 1) as nat);
            assert(t.skip(closing(t, (k - 1) as nat)->0 as int) =~= evs.skip(closing(evs, k)->0 as int));
        } else {
            assert(closing(evs, 0) == Some(1nat));
        },
        Event::Start { .. } => {
            lemma_closing_step(t, d, k + 1);
            lemma_closing(t, k + 1);
            assert(t.skip(closing(t, k + 1)->0 as int) =~= evs.skip(closing(evs, k)->0 as int));
        }
        _ => {
            lemma_closing_step(t, d, k);
            lemma_closing(t, k);
            assert(t.skip(closing(t, k)->0 as int) =~= evs.skip(closing(evs, k)->0 as int));
        }
    }
}
pub proof fn lemma_sum_split(s: Seq<TokV>, n: int)
    requires 0 <= n <= s.len()
    ensures sum_len(s) == sum_len(s.take(n)) + sum_len(s.skip(n))
    decreases s.len()
{
    if n == s.len() {
        assert(s.take(n) =~= s);
        assert(s.skip(n) =~= Seq::<TokV>::empty());
    } else {
        lemma_sum_split(s.drop_last(), n);
        assert(s.drop_last().take(n) =~= s.take(n));
        assert(s.drop_last().skip(n) =~= s.skip(n).drop_last());
    }
}
pub proof fn lemma_sum_pos(s: Seq<TokV>)
    requires lens_pos(s)
    ensures sum_len(s) >= 0
    decreases s.len()
{
    if s.len() > 0 { lemma_sum_pos(s.drop_last()); }
}
pub open spec fn lens_pos(s: Seq<TokV>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len >= 0 }
/// the first `n` tokens and the next one
pub proof fn lemma_take_next(s: Seq<TokV>, n: int)
    requires 0 <= n < s.len(), lens_pos(s)
    ensures sum_len(s.take(n + 1)) == sum_len(s.take(n)) + s[n].len, sum_len(s.take(n + 1)) <= sum_len(s), s.take(n + 1).drop_last() == s.take(n),
        sum_len(s.take(n)) >= 0,
        forall|b: BV| #[trigger] leaves(b, s.take(n + 1)) == leaves(b, s.take(n)).leaf(s[n].ty, s[n].len)
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    lemma_sum_split(s, n + 1);
    assert(lens_pos(s.skip(n + 1)));
    assert(lens_pos(s.take(n)));
    lemma_sum_pos(s.skip(n + 1));
    lemma_sum_pos(s.take(n));
}
pub open spec fn room(b: TreeBuilder, toks: Seq<(Token, Text)>, evs: Seq<Event>) -> bool {
    b.nodes@.len() + toks.len() + evs.len() <= u32::MAX && b.pos.0 + sum_len(tokvs(toks)) <= u32::MAX
}

/// in the middle of a node: `nt` tokens are placed and `ne` events are done
pub struct At { pub evs: Seq<Event>, pub tv: Seq<TokV>, pub b0: BV, pub tys: Seq<NodeType>, pub nt: int, pub ne: int, pub b: BV }
impl<'a> Convertor<'a> {
    pub open spec fn at(&self, a: At) -> bool {
        &&& 0 <= a.nt <= a.tv.len() && 0 <= a.ne <= a.evs.len()
        &&& closing(a.evs.skip(a.ne), 0).is_some() && closing(a.evs, 0) == Some((a.ne + closing(a.evs.skip(a.ne), 0)->0) as nat)
        &&& self.fits(a.evs.skip(a.ne), a.tv.skip(a.nt))
        &&& self.run(a.evs.take(a.ne), CS { rest: a.tv, b: a.b0, tys: a.tys }) == (CS { rest: a.tv.skip(a.nt), b: a.b, tys: a.tys })
        &&& lens_pos(a.tv)
    }
    pub open spec fn lead(&self, a: At, ty: NodeType) -> nat {
        (self.ws_run(a.tv.skip(a.nt)) - self.claimed(ty, a.tv.skip(a.nt), true)) as nat
    }
    pub proof fn lemma_at_next(&self, a: At)
        requires self.at(a)
        ensures a.ne < a.evs.len(), a.evs.skip(a.ne).skip(1) == a.evs.skip(a.ne + 1), a.evs.skip(a.ne)[0] == a.evs[a.ne],
            self.run(a.evs.take(a.ne + 1), CS { rest: a.tv, b: a.b0, tys: a.tys }) == self.step(a.evs[a.ne], CS { rest: a.tv.skip(a.nt), b: a.b, tys: a.tys })
    {
        let e1 = a.evs.skip(a.ne);
        lemma_closing(e1, 0);
        assert(e1.skip(1) =~= a.evs.skip(a.ne + 1));
        assert(a.evs.take(a.ne + 1) =~= a.evs.take(a.ne).push(a.evs[a.ne]));
        self.lemma_run_push(a.evs.take(a.ne), a.evs[a.ne], CS { rest: a.tv, b: a.b0, tys: a.tys });
    }
    pub proof fn lemma_at_cached(&self, a: At)
        requires self.at(a), a.evs[a.ne] is Cached
        ensures self.at(At { ne: a.ne + 1, ..a })
    {
        self.lemma_at_next(a);
    }
    pub proof fn lemma_at_end(&self, a: At)
        requires self.at(a), a.evs[a.ne] is End
        ensures closing(a.evs, 0) == Some((a.ne + 1) as nat), self.fits(a.evs.skip(a.ne + 1), a.tv.skip(a.nt)), a.ne < a.evs.len()
    {
        self.lemma_at_next(a);
        assert(closing(a.evs.skip(a.ne), 0) == Some(1nat));
    }
    /// a token event: its tokens are there
    pub proof fn lemma_at_token(&self, a: At, ty: NodeType, n: u16)
        requires self.at(a), a.evs[a.ne] == (Event::Token { ty: ty, n_raw_tokens: n })
        ensures ({
            let w = self.ws_run(a.tv.skip(a.nt)) as int;
            let r1 = a.tv.skip(a.nt + w);
            &&& a.nt + w + n <= a.tv.len()
            &&& self.at(At { nt: a.nt + w + n, ne: a.ne + 1, b: leaves(a.b, a.tv.skip(a.nt).take(w)).leaf(ty, sum_len(r1.take(n as int))), ..a })
            &&& sum_len(a.tv.skip(a.nt)) == sum_len(a.tv.skip(a.nt).take(w)) + sum_len(r1) && sum_len(r1) == sum_len(r1.take(n as int)) + sum_len(r1.skip(n as int))
            &&& 0 <= sum_len(r1.skip(n as int)) && r1.skip(n as int) == a.tv.skip(a.nt + w + n) && a.tv.skip(a.nt).skip(w) == r1
        })
    {
        self.lemma_at_next(a);
        let s = a.tv.skip(a.nt);
        let w = self.ws_run(s) as int;
        let r1 = a.tv.skip(a.nt + w);
        self.lemma_ws_run(s);
        assert(s.skip(w) =~= r1);
        assert(r1.skip(n as int) =~= a.tv.skip(a.nt + w + n));
        assert(s.skip(w + n) =~= a.tv.skip(a.nt + w + n));
        lemma_sum_split(s, w);
        lemma_sum_split(r1, n as int);
        assert(lens_pos(r1.skip(n as int)));
        lemma_sum_pos(r1.skip(n as int));
    }
    /// a node starts: it ends somewhere, and its tokens are there
    pub proof fn lemma_at_start(&self, a: At, ty: NodeType)
        requires self.at(a), a.evs[a.ne] matches Event::Start { ty: t, .. } && t == ty, self.whitespace_binder.ok()
        ensures ({
            let l = self.lead(a, ty) as int;
            &&& a.nt + l <= a.tv.len() && l <= self.ws_run(a.tv.skip(a.nt))
            &&& closing(a.evs.skip(a.ne + 1), 0).is_some() && self.fits(a.evs.skip(a.ne + 1), a.tv.skip(a.nt + l))
            &&& sum_len(a.tv.skip(a.nt)) == sum_len(a.tv.skip(a.nt).take(l)) + sum_len(a.tv.skip(a.nt + l))
            &&& a.tv.skip(a.nt).skip(l) == a.tv.skip(a.nt + l)
        })
    {
        self.lemma_at_next(a);
        let s = a.tv.skip(a.nt);
        let l = self.lead(a, ty) as int;
        self.lemma_ws_run(s);
        assert(self.claimed(ty, s, true) <= self.ws_run(s));
        assert(s.skip(l) =~= a.tv.skip(a.nt + l));
        lemma_sum_split(s, l);
        self.lemma_fits_skip(a.evs.skip(a.ne + 1), s, l as nat);
        assert(closing(a.evs.skip(a.ne + 1), 1).is_some());
        lemma_closing_step(a.evs.skip(a.ne + 1), 0, 0);
    }
    /// a node is done
    pub proof fn lemma_at_child(&self, a: At, ty: NodeType, right: int, child: int, b2: BV)
        requires self.at(a), a.evs[a.ne] matches Event::Start { ty: t, .. } && t == ty, self.whitespace_binder.ok(),
            closing(a.evs.skip(a.ne + 1), 0) == Some(child as nat), child >= 0, 0 <= right <= a.tv.len() - a.nt - self.lead(a, ty),
            self.fits(a.evs.skip(a.ne + 1).skip(child), a.tv.skip(a.nt + self.lead(a, ty)).skip(right)),
            self.run(a.evs.skip(a.ne + 1).take(child), CS { rest: a.tv.skip(a.nt + self.lead(a, ty)), b: leaves(a.b, a.tv.skip(a.nt).take(self.lead(a, ty) as int)), tys: a.tys }.open(ty))
                == (CS { rest: a.tv.skip(a.nt + self.lead(a, ty)).skip(right), b: b2, tys: a.tys })
        ensures self.at(At { nt: a.nt + self.lead(a, ty) + right, ne: a.ne + 1 + child, b: b2, ..a }), a.ne + 1 + child < a.evs.len(), child > 0,
            a.tv.skip(a.nt + self.lead(a, ty)).skip(right) == a.tv.skip(a.nt + self.lead(a, ty) + right)
    {
        self.lemma_at_next(a);
        self.lemma_at_start(a, ty);
        let l = self.lead(a, ty) as int;
        let e1 = a.evs.skip(a.ne + 1);
        assert(a.tv.skip(a.nt + l).skip(right) =~= a.tv.skip(a.nt + l + right));
        assert(closing(e1, 1).is_some());
        lemma_closing_step(e1, 0, 0);
        lemma_closing(e1, 0);
        assert(e1.skip(child) =~= a.evs.skip(a.ne + 1 + child));
        lemma_closing(a.evs.skip(a.ne + 1 + child), 0);
        let s0 = CS { rest: a.tv, b: a.b0, tys: a.tys };
        assert(a.evs.take(a.ne + 1 + child) =~= a.evs.take(a.ne + 1) + e1.take(child));
        self.lemma_run_concat(a.evs.take(a.ne + 1), e1.take(child), s0);
    }
}
/// the spaces at the start of `toks`
pub open spec fn picked<'a, 't>(c: &Convertor<'a>, toks: Seq<(Token, Text<'t>)>, ws: Seq<(NodeType, Text<'t>)>) -> bool {
    ws.len() <= toks.len() && forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).0 == toks[i].0.ty && ws[i].1 == toks[i].1 && c.is_whitespace.is(toks[i].0.ty)
}
impl<'a> Convertor<'a> {
//@fn fall/parse/src/syn_engine/convert.rs Convertor::go
    pub fn go(
        &self,
        ty: NodeType,
        tokens: &[(Token, Text)],
        events: &[Event],
        builder: &mut TreeBuilder,
        «Ghost(tys): Ghost<Seq<NodeType>>,»
    ) -> «(r:» Conversion «)
        requires
            self.whitespace_binder.ok(), toks_ok(tokens@), closing(events@, 0).is_some(), self.fits(events@, tokvs(tokens@)),
            old(builder).bv().inv(), old(builder).in_progress@.len() > 0 || old(builder).nodes@.len() == 0 && old(builder).pos.0 == 0,
            old(builder).nodes@.len() + 1 + tokens@.len() + events@.len() <= u32::MAX, old(builder).pos.0 + sum_len(tokvs(tokens@)) <= u32::MAX,
        ensures
            final(builder).bv().inv(), final(builder).in_progress@.len() == old(builder).in_progress@.len(),
            r.right_edge <= tokens@.len(), closing(events@, 0) == Some(r.n_events as nat),
            self.run(events@.take(r.n_events as int), CS { rest: tokvs(tokens@), b: old(builder).bv(), tys: tys }.open(ty))
                == (CS { rest: tokvs(tokens@).skip(r.right_edge as int), b: final(builder).bv(), tys: tys }),
            old(builder).nodes@.len() < final(builder).nodes@.len() <= old(builder).nodes@.len() + r.right_edge + r.n_events,
            self.takes_all(ty) ==> self.ws_run(tokvs(tokens@).skip(r.right_edge as int)) == 0,
            final(builder).pos.0 + sum_len(tokvs(tokens@).skip(r.right_edge as int)) == old(builder).pos.0 + sum_len(tokvs(tokens@)),
            self.fits(events@.skip(r.n_events as int), tokvs(tokens@).skip(r.right_edge as int)),
        decreases events@.len(), 1int» {
        «hide(BV::inv); hide(BV::leaf); hide(BV::open); hide(BV::close); hide(nds); hide(ids);
        let ghost tv = tokvs(tokens@);
        let ghost s0 = CS { rest: tv, b: builder.bv(), tys: tys }.open(ty);
        proof { lemma_closing(events@, 0); }»
        builder.start_internal(ty);
        let (n_tokens, n_events) = self.fill(tokens, events, builder«, Ghost(tys.push(ty)), Ghost(tokens@), Ghost(events@)»);
        «let ghost toks0 = tokens@;»
        let tokens = &tokens[n_tokens..];
        «proof { assert(tokvs(tokens@) =~= tv.skip(n_tokens as int)); }»

        let trailing_ws = self.collect_tokens_for_binder(tokens);
        let right_ws = self.whitespace_binder.call(ty, &trailing_ws, false);
        «let ghost tv1 = tokvs(tokens@);
        let ghost b1 = builder.bv();
        let ghost n1 = builder.nodes@.len();
        proof { self.lemma_ws_run(tv1); assert(lens_pos(tv1)); assert(tv1.take(0) =~= Seq::<TokV>::empty()); }»
        {
            let s__0 = &tokens[..right_ws];
            let mut i__0: usize = 0;
            while i__0 < s__0.len()
            «invariant
                i__0 <= s__0@.len(), s__0@ == tokens@.take(right_ws as int), tv1 == tokvs(tokens@), right_ws <= tokens@.len(), lens_pos(tv1),
                builder.bv().inv(), builder.in_progress@.len() == old(builder).in_progress@.len() + 1,
                builder.nodes@.len() == n1 + i__0, n1 + tokens@.len() <= u32::MAX,
                b1.pos + sum_len(tv1) <= u32::MAX, builder.bv() == leaves(b1, tv1.take(i__0 as int)),
                builder.pos.0 == b1.pos + sum_len(tv1.take(i__0 as int)),
             decreases s__0@.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let t = s__0[j__0].0;
                «proof { lemma_take_next(tv1, j__0 as int); }»
                builder.leaf(t.ty, t.len);
            }
        }
        «proof {
            assert(tv1.skip(right_ws as int) =~= tv.skip(n_tokens + right_ws));
            lemma_sum_split(tv1, right_ws as int);
            self.lemma_fits_skip(events@.skip(n_events as int), tv1, right_ws as nat);
            self.lemma_ws_run_skip(tv1, right_ws as nat);
            assert(events@.take(n_events as int) =~= events@.take(n_events - 1).push(Event::End));
            self.lemma_run_push(events@.take(n_events - 1), Event::End, s0);
            assert(tys.push(ty).drop_last() =~= tys);
        }»
        builder.finish_internal();

        let right_edge = n_tokens + right_ws;
        return Conversion {
            right_edge,
            n_events,
        };
    }
//@end

//@fn fall/parse/src/syn_engine/convert.rs Convertor::collect_tokens_for_binder
    pub fn collect_tokens_for_binder<'t>(&self, tokens: &[(Token, Text<'t>)]) -> «(r:» Vec<(NodeType, Text<'t>)> «)
        requires toks_ok(tokens@)
        ensures r@.len() == self.ws_run(tokvs(tokens@)), r@.len() <= tokens@.len(), spaces_ok(r@),
            spaces(r@) == spaces_of(tokvs(tokens@).take(self.ws_run(tokvs(tokens@)) as int))» {
        {
            let mut r__0 «: Vec<(NodeType, Text<'t>)>» = Vec::new();
            let mut i__0: usize = 0;
            while i__0 < tokens.len()
            «invariant_except_break
                i__0 == r__0@.len()
             invariant
                i__0 <= tokens@.len(), toks_ok(tokens@), spaces_ok(r__0@), picked(self, tokens@, r__0@)
             ensures r__0@.len() < tokens@.len() ==> !self.is_whitespace.is(tokens@[r__0@.len() as int].0.ty)
             decreases tokens@.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let t = (*(&tokens[j__0])).0;
                if !(self.is_whitespace.call(t.ty)) {
                    break;
                }
                let t = tokens[j__0].0;
                let text = tokens[j__0].1;
                r__0.push((t.ty, text));
            }
            «proof {
                let tv = tokvs(tokens@);
                assert forall|i: int| 0 <= i < r__0@.len() implies self.is_whitespace.is((#[trigger] tv[i]).ty) by { assert(picked(self, tokens@, r__0@)); assert(r__0@[i].0 == tokens@[i].0.ty); }
                self.lemma_ws_run_is(tv, r__0@.len());
                assert(spaces(r__0@) =~= spaces_of(tv.take(r__0@.len() as int)));
            }»
            r__0
        }
    }
//@end

//@fn fall/parse/src/syn_engine/convert.rs Convertor::fill
    «#[verifier::rlimit(100)]»
    pub fn fill(
        &self,
        tokens: &[(Token, Text)],
        events: &[Event],
        builder: &mut TreeBuilder,
        «Ghost(tys): Ghost<Seq<NodeType>>, Ghost(toks0): Ghost<Seq<(Token, Text)>>, Ghost(evs): Ghost<Seq<Event>>,»
    ) -> «(r:» (usize, usize) «)
        requires
            toks0 == tokens@, evs == events@, self.whitespace_binder.ok(), toks_ok(toks0), closing(evs, 0).is_some(), self.fits(evs, tokvs(toks0)),
            old(builder).bv().inv(), old(builder).in_progress@.len() > 0, room(*old(builder), toks0, evs),
        ensures
            final(builder).bv().inv(), final(builder).in_progress@.len() == old(builder).in_progress@.len(),
            r.0 <= toks0.len(), closing(evs, 0) == Some(r.1 as nat), 0 < r.1 <= evs.len(), evs[r.1 - 1] == Event::End,
            self.run(evs.take(r.1 - 1), CS { rest: tokvs(toks0), b: old(builder).bv(), tys: tys })
                == (CS { rest: tokvs(toks0).skip(r.0 as int), b: final(builder).bv(), tys: tys }),
            old(builder).nodes@.len() <= final(builder).nodes@.len() <= old(builder).nodes@.len() + r.0 + r.1 - 1,
            final(builder).pos.0 + sum_len(tokvs(toks0).skip(r.0 as int)) == old(builder).pos.0 + sum_len(tokvs(toks0)),
            self.fits(evs.skip(r.1 as int), tokvs(toks0).skip(r.0 as int)),
        decreases evs.len(), 0int» {
        «hide(BV::inv); hide(BV::leaf); hide(BV::open); hide(BV::close); hide(nds); hide(ids); hide(Convertor::at); hide(Convertor::ws_run); hide(balanced); hide(Convertor::fits); hide(Convertor::run); hide(closing);
        let ghost tv = tokvs(toks0);
        let ghost mut a = At { evs: evs, tv: tv, b0: builder.bv(), tys: tys, nt: 0, ne: 0, b: builder.bv() };
        proof {
            reveal(Convertor::at);
            reveal(Convertor::run);
            assert(tv.skip(0) =~= tv);
            assert(evs.skip(0) =~= evs);
            assert(evs.take(0) =~= Seq::<Event>::empty());
            assert(tokens@.skip(0) =~= tokens@);
            assert(lens_pos(tv));
        }»
        let mut tokens = tokens;
        let mut n_tokens «: usize» = 0;
        let mut events = events;
        let mut n_events «: usize» = 0;
        loop
        «invariant
            self.whitespace_binder.ok(), toks_ok(toks0), tv == tokvs(toks0), n_tokens <= toks0.len(), n_events <= evs.len(),
            tokens@ == toks0.skip(n_tokens as int), events@ == evs.skip(n_events as int),
            self.at(a), a == (At { evs: evs, tv: tv, b0: old(builder).bv(), tys: tys, nt: n_tokens as int, ne: n_events as int, b: builder.bv() }),
            builder.bv().inv(), builder.in_progress@.len() == old(builder).in_progress@.len(), old(builder).in_progress@.len() > 0,
            room(*old(builder), toks0, evs), old(builder).nodes@.len() <= builder.nodes@.len() <= old(builder).nodes@.len() + n_tokens + n_events,
            builder.pos.0 + sum_len(tv.skip(n_tokens as int)) == old(builder).pos.0 + sum_len(tv),
         decreases events@.len()»
        {
            «let ghost tv1 = tokvs(tokens@);
            let ghost toks1 = tokens@;
            let ghost b1 = builder.bv();
            let ghost n1 = builder.nodes@.len();
            proof {
                assert(lens_pos(tv1));
                assert(tv1 =~= tv.skip(n_tokens as int));
                assert(tv1.take(0) =~= Seq::<TokV>::empty());
                self.lemma_at_next(a);
                self.lemma_ws_run(tv1);
            }»
            let (first, rest) = (events[0], &events[1..]);
            n_events += 1;
            events = rest;
            match first {
                Event::Start { ty, forward_parent: _ } => {
                    «proof { self.lemma_at_start(a, ty); }»
                    let leading_ws = self.collect_tokens_for_binder(tokens);
                    let left_wd = leading_ws.len() - self.whitespace_binder.call(ty, &leading_ws, true);
                    {
                        let mut i__0 «: usize» = 0;
                        let e__0 = left_wd;
                        while i__0 < e__0
                        «invariant
                            i__0 <= e__0, e__0 == left_wd, tokens@ == toks1, tv1 == tokvs(toks1), left_wd <= toks1.len(), lens_pos(tv1),
                            builder.bv().inv(), builder.in_progress@.len() == old(builder).in_progress@.len(), old(builder).in_progress@.len() > 0,
                            builder.nodes@.len() == n1 + i__0, n1 + toks1.len() <= u32::MAX,
                            b1.pos + sum_len(tv1) <= u32::MAX, builder.bv() == leaves(b1, tv1.take(i__0 as int)),
                            builder.pos.0 == b1.pos + sum_len(tv1.take(i__0 as int)),
                         decreases e__0 - i__0»
                        {
                            let j__0 = i__0;
                            i__0 = i__0 + 1;
                            let i = j__0;
                            let t = tokens[i].0;
                            «proof { lemma_take_next(tv1, j__0 as int); }»
                            builder.leaf(t.ty, t.len);
                        }
                    }
                    tokens = &tokens[left_wd..];
                    n_tokens += left_wd;
                    «proof {
                        assert(tokens@ =~= toks0.skip(n_tokens as int));
                        assert(tokvs(tokens@) =~= tv.skip(n_tokens as int));
                    }»

                    let Conversion { right_edge, n_events: child_events } =
                        self.go(ty, tokens, events, builder«, Ghost(tys)»);
                    tokens = &tokens[right_edge..];
                    n_tokens += right_edge;
                    «proof { self.lemma_at_child(a, ty, right_edge as int, child_events as int, builder.bv()); }»
                    events = &events[child_events..];
                    n_events += child_events;
                    «proof {
                        assert(tokens@ =~= toks0.skip(n_tokens as int));
                        assert(events@ =~= evs.skip(n_events as int));
                        a = At { nt: n_tokens as int, ne: n_events as int, b: builder.bv(), ..a };
                    }»
                }

                Event::End => «{
                    proof {
                        self.lemma_at_end(a);
                        reveal(Convertor::at);
                    }» return (n_tokens, n_events) «}»,

                Event::Token { ty, n_raw_tokens } => {
                    let non_white = {
                        let mut r__0 = 0usize;
                        let mut i__1: usize = 0;
                        while i__1 < tokens.len()
                        «invariant_except_break
                            i__1 == r__0
                         invariant
                            i__1 <= tokens@.len(), r__0 <= tokens@.len(), tv1 == tokvs(tokens@),
                            forall|i: int| 0 <= i < r__0 ==> self.is_whitespace.is((#[trigger] tv1[i]).ty)
                         ensures r__0 < tokens@.len() ==> !self.is_whitespace.is(tv1[r__0 as int].ty)
                         decreases tokens@.len() - i__1»
                        {
                            let j__1 = i__1;
                            i__1 = i__1 + 1;
                            let t = (*(&tokens[j__1])).0;
                            if !(self.is_whitespace.call(t.ty)) {
                                break;
                            }
                            r__0 = r__0 + 1;
                        }
                        r__0
                    };
                    «proof { self.lemma_ws_run_is(tv1, non_white as nat); self.lemma_at_token(a, ty, n_raw_tokens); }
                    let ghost n16 = n_raw_tokens;»
                    {
                        let mut i__2 «: usize» = 0;
                        let e__2 = non_white;
                        while i__2 < e__2
                        «invariant
                            i__2 <= e__2, e__2 == non_white, tokens@ == toks1, tv1 == tokvs(toks1), non_white <= toks1.len(), lens_pos(tv1),
                            builder.bv().inv(), builder.in_progress@.len() == old(builder).in_progress@.len(), old(builder).in_progress@.len() > 0,
                            builder.nodes@.len() == n1 + i__2, n1 + toks1.len() <= u32::MAX,
                            b1.pos + sum_len(tv1) <= u32::MAX, builder.bv() == leaves(b1, tv1.take(i__2 as int)),
                            builder.pos.0 == b1.pos + sum_len(tv1.take(i__2 as int)),
                         decreases e__2 - i__2»
                        {
                            let j__2 = i__2;
                            i__2 = i__2 + 1;
                            let i = j__2;
                            let t = tokens[i].0;
                            «proof { lemma_take_next(tv1, j__2 as int); }»
                            builder.leaf(t.ty, t.len);
                        }
                    }
                    tokens = &tokens[non_white..];
                    n_tokens += non_white;
                    «let ghost tv2 = tokvs(tokens@);
                    let ghost nt = n_tokens as int;
                    proof {
                        assert(tv2 =~= tv1.skip(non_white as int));
                        assert(lens_pos(tv2));
                        assert(tv2 =~= tv.skip(n_tokens as int));
                        assert(tv2.take(0) =~= Seq::<TokV>::empty());
                    }»

                    let n_raw_tokens = n_raw_tokens as usize;
                    let mut len = tu(0);
                    {
                        let s__3 = &tokens[..n_raw_tokens];
                        let mut i__3: usize = 0;
                        while i__3 < s__3.len()
                        «invariant
                            i__3 <= s__3@.len(), s__3@ == tokens@.take(n_raw_tokens as int), n_raw_tokens <= tokens@.len(), tv2 == tokvs(tokens@), lens_pos(tv2),
                            len.0 == sum_len(tv2.take(i__3 as int)), sum_len(tv2) <= u32::MAX, n_tokens == nt + i__3, nt + tokens@.len() <= toks0.len() <= u32::MAX
                         decreases s__3@.len() - i__3»
                        {
                            let j__3 = i__3;
                            i__3 = i__3 + 1;
                            let t = s__3[j__3].0;
                            «proof { lemma_take_next(tv2, j__3 as int); }»
                            n_tokens += 1;
                            len += t.len;
                        }
                    }
                    builder.leaf(ty, len);
                    tokens = &tokens[n_raw_tokens..];
                    «proof {
                        assert(tokens@ =~= toks0.skip(n_tokens as int));
                        a = At { nt: n_tokens as int, ne: n_events as int, b: builder.bv(), ..a };
                    }»
                }

                Event::Cached { .. } => {«
                    proof { self.lemma_at_cached(a); a = At { ne: n_events as int, ..a }; }
                »}
            }
        }
    }
//@end
}


/// the moved starts which are still to come, next one on top: exactly the targets of what is done
pub open spec fn holes_ok(evs: Seq<Event>, n: int, holes: Seq<usize>) -> bool {
    &&& forall|k: int| 0 <= k < holes.len() ==> n <= (#[trigger] holes[k]) < evs.len()
    &&& forall|k: int, l: int| 0 <= k < l < holes.len() ==> (#[trigger] holes[k]) > (#[trigger] holes[l])
    &&& forall|k: int| 0 <= k < holes.len() ==> #[trigger] hole_from(evs, n, holes, k)
    &&& forall|j: int| 0 <= j < n ==> #[trigger] hole_to(evs, n, holes, j)
    &&& forall|k: int| 0 <= k < holes.len() ==> #[trigger] hole_to(evs, n, holes, holes[k] as int)
}
/// the `k`-th is the target of something done, or of another one
pub open spec fn hole_from(evs: Seq<Event>, n: int, holes: Seq<usize>, k: int) -> bool {
    exists|j: int| 0 <= j < holes[k] && #[trigger] tgt(evs, j) == Some(holes[k] as int) && (j < n || has(holes, j))
}
pub open spec fn has(holes: Seq<usize>, j: int) -> bool { exists|l: int| 0 <= l < holes.len() && #[trigger] holes[l] == j }
pub open spec fn hole_to(evs: Seq<Event>, n: int, holes: Seq<usize>, j: int) -> bool {
    tgt(evs, j) matches Some(t) ==> t >= n ==> has(holes, t)
}
pub proof fn lemma_holes_top(evs: Seq<Event>, n: int, holes: Seq<usize>)
    requires fp_ok(evs), 0 <= n < evs.len(), holes_ok(evs, n, holes)
    ensures moved(evs, n) <==> holes.len() > 0 && holes.last() == n
{
    if holes.len() > 0 && holes.last() == n {
        assert(hole_from(evs, n, holes, holes.len() - 1));
    }
    if moved(evs, n) {
        let j = choose|j: int| 0 <= j < n && #[trigger] tgt(evs, j) == Some(n);
        assert(hole_to(evs, n, holes, j));
        let l = choose|l: int| 0 <= l < holes.len() && #[trigger] holes[l] == n;
        if l < holes.len() - 1 { assert(holes[l] > holes[holes.len() - 1]); }
    }
}
pub proof fn lemma_holes_pop(evs: Seq<Event>, n: int, holes: Seq<usize>)
    requires fp_ok(evs), 0 <= n < evs.len(), holes_ok(evs, n, holes), moved(evs, n)
    ensures holes.len() > 0, holes_ok(evs, n + 1, holes.drop_last()), evs[n] is Start
{
    lemma_holes_top(evs, n, holes);
    let h = holes.drop_last();
    let jm = choose|j: int| 0 <= j < n && #[trigger] tgt(evs, j) == Some(n);
    assert(tgt_ok(evs, jm));
    assert forall|k: int| 0 <= k < h.len() implies n + 1 <= (#[trigger] h[k]) < evs.len() by { assert(holes[k] > holes[holes.len() - 1]); }
    assert forall|k: int| 0 <= k < h.len() implies #[trigger] hole_from(evs, n + 1, h, k) by {
        assert(hole_from(evs, n, holes, k));
        let j = choose|j: int| 0 <= j < holes[k] && #[trigger] tgt(evs, j) == Some(holes[k] as int) && (j < n || has(holes, j));
        if j > n {
            let l = choose|l: int| 0 <= l < holes.len() && #[trigger] holes[l] == j;
            assert(h[l] == j);
            assert(has(h, j));
        }
    }
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] hole_to(evs, n + 1, h, j) by {
        if j == n { assert(hole_to(evs, n, holes, holes[holes.len() - 1] as int)); } else { assert(hole_to(evs, n, holes, j)); }
        lemma_still_has(evs, n, holes, j);
    }
    assert forall|k: int| 0 <= k < h.len() implies #[trigger] hole_to(evs, n + 1, h, h[k] as int) by {
        assert(hole_to(evs, n, holes, holes[k] as int));
        lemma_still_has(evs, n, holes, holes[k] as int);
    }
}
pub proof fn lemma_still_has(evs: Seq<Event>, n: int, holes: Seq<usize>, j: int)
    requires hole_to(evs, n, holes, j), holes.len() > 0, holes.last() == n
    ensures hole_to(evs, n + 1, holes.drop_last(), j)
{
    if let Some(t) = tgt(evs, j) {
        if t >= n + 1 {
            let l = choose|l: int| 0 <= l < holes.len() && #[trigger] holes[l] == t;
            assert(holes.drop_last()[l] == t);
        }
    }
}
/// nothing moves at `n`
pub proof fn lemma_holes_keep(evs: Seq<Event>, n: int, holes: Seq<usize>)
    requires fp_ok(evs), 0 <= n < evs.len(), holes_ok(evs, n, holes), !moved(evs, n), tgt(evs, n).is_none()
    ensures holes_ok(evs, n + 1, holes)
{
    lemma_holes_top(evs, n, holes);
    assert forall|k: int| 0 <= k < holes.len() implies n + 1 <= (#[trigger] holes[k]) < evs.len() by {
        if holes[k] == n { assert(hole_from(evs, n, holes, k)); }
    }
    assert forall|k: int| 0 <= k < holes.len() implies #[trigger] hole_from(evs, n + 1, holes, k) by { assert(hole_from(evs, n, holes, k)); }
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] hole_to(evs, n + 1, holes, j) by { if j < n { assert(hole_to(evs, n, holes, j)); } }
    assert forall|k: int| 0 <= k < holes.len() implies #[trigger] hole_to(evs, n + 1, holes, holes[k] as int) by { assert(hole_to(evs, n, holes, holes[k] as int)); }
}
/// the rest of the chain of `n` goes on top, in reverse
pub open spec fn chain_on(evs: Seq<Event>, n: int, holes: Seq<usize>, h: Seq<usize>) -> bool {
    let c = chain(evs, n);
    &&& h.len() == holes.len() + c.len() - 1
    &&& forall|k: int| 0 <= k < holes.len() ==> #[trigger] h[k] == holes[k]
    &&& forall|k: int| holes.len() <= k < h.len() ==> #[trigger] h[k] == c[c.len() - 1 - (k - holes.len())]
}
#[verifier::rlimit(60)]
pub proof fn lemma_holes_chain(evs: Seq<Event>, n: int, holes: Seq<usize>, h: Seq<usize>)
    requires fp_ok(evs), 0 <= n < evs.len(), holes_ok(evs, n, holes), !moved(evs, n), tgt(evs, n).is_some(), chain_on(evs, n, holes, h)
    ensures holes_ok(evs, n + 1, h)
{
    let c = chain(evs, n);
    let (a, m) = (holes.len() as int, c.len() as int);
    assert(tgt_ok(evs, n));
    lemma_chain(evs, n);
    lemma_holes_top(evs, n, holes);
    assert forall|k: int, l: int| 0 <= k < l < m implies c[k] < c[l] by { lemma_chain_sorted(evs, n, k, l); }
    // the chain stays below what is there
    assert forall|k: int, l: int| 0 <= k < a && 0 <= l < m implies #[trigger] holes[k] > #[trigger] c[l] by {
        assert(hole_from(evs, n, holes, a - 1));
        let t = holes[a - 1] as int;
        let j = choose|j: int| 0 <= j < t && #[trigger] tgt(evs, j) == Some(t) && (j < n || has(holes, j));
        if j >= n {
            let x = choose|x: int| 0 <= x < holes.len() && #[trigger] holes[x] == j;
            if x < a - 1 { assert(holes[x] > holes[a - 1]); }
            assert(false);
        }
        assert(tgt_ok(evs, j));
        lemma_chain_below(evs, j, n);
        if k < a - 1 { assert(holes[k] > holes[a - 1]); }
    }
    assert forall|k: int| 0 <= k < h.len() implies n + 1 <= (#[trigger] h[k]) < evs.len() by {
        if k < a { assert(holes[k] > c[0]); } else { let l = m - 1 - (k - a); assert(c[0] < c[l]); assert(c[l] < evs.len()); }
    }
    assert forall|k: int, l: int| 0 <= k < l < h.len() implies (#[trigger] h[k]) > (#[trigger] h[l]) by {
        if l < a { assert(holes[k] > holes[l]); }
        else if k < a { assert(holes[k] > c[m - 1 - (l - a)]); }
        else { assert(c[m - 1 - (l - a)] < c[m - 1 - (k - a)]); }
    }
    assert forall|k: int| 0 <= k < h.len() implies #[trigger] hole_from(evs, n + 1, h, k) by {
        if k < a {
            assert(hole_from(evs, n, holes, k));
            let j = choose|j: int| 0 <= j < holes[k] && #[trigger] tgt(evs, j) == Some(holes[k] as int) && (j < n || has(holes, j));
            if j >= n {
                let x = choose|x: int| 0 <= x < holes.len() && #[trigger] holes[x] == j;
                assert(h[x] == j);
                assert(has(h, j));
            }
        } else {
            let l = m - 1 - (k - a);
            let j = c[l - 1];
            assert(tgt(evs, c[l - 1]) == Some(c[l]));
            assert(0 <= j < h[k]);
            if l - 1 > 0 { assert(h[a + m - 1 - (l - 1)] == c[l - 1]); assert(has(h, j)); }
        }
    }
    assert forall|j: int| #![auto] has(holes, j) implies has(h, j) by {
        let x = choose|x: int| 0 <= x < holes.len() && #[trigger] holes[x] == j;
        assert(h[x] == j);
    }
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] hole_to(evs, n + 1, h, j) by {
        if j < n { assert(hole_to(evs, n, holes, j)); } else {
            assert(tgt(evs, c[0]) == Some(c[1]));
            assert(h[a + m - 1 - 1] == c[1]);
        }
    }
    assert forall|k: int| 0 <= k < h.len() implies #[trigger] hole_to(evs, n + 1, h, h[k] as int) by {
        if k < a { assert(hole_to(evs, n, holes, holes[k] as int)); } else {
            let l = m - 1 - (k - a);
            if l < m - 1 { assert(tgt(evs, c[l]) == Some(c[l + 1])); assert(h[a + m - 1 - (l + 1)] == c[l + 1]); }
        }
    }
}
pub proof fn lemma_chain_sorted(evs: Seq<Event>, i: int, k: int, l: int)
    requires fp_ok(evs), 0 <= i < evs.len(), evs[i] is Start, 0 <= k < l < chain(evs, i).len()
    ensures chain(evs, i)[k] < chain(evs, i)[l]
    decreases l - k
{
    lemma_chain(evs, i);
    assert(chain(evs, i)[k] < chain(evs, i)[k + 1]);
    if k + 1 < l { lemma_chain_sorted(evs, i, k + 1, l); }
}
/// what is placed so far: balanced up to the starts which were moved here
pub open spec fn so_far(evs: Seq<Event>, n: int, res: Seq<Event>, holes: int) -> bool {
    &&& res == in_place(evs, n)
    &&& depth(res) == depth(evs.take(n)) + holes
    &&& raws(res) == raws(evs.take(n))
    &&& res.len() == n + holes
    &&& balanced(evs) ==> forall|k: int| 0 < k < res.len() ==> #[trigger] inside(res, k)
}
pub proof fn lemma_so_far(evs: Seq<Event>, n: int, res: Seq<Event>, holes: int, e: Seq<Event>, holes2: int)
    requires so_far(evs, n, res, holes), 0 <= n < evs.len(), e == placed(evs, n), fp_ok(evs), holes >= 0, holes2 >= 0,
        moved(evs, n) ==> holes2 == holes - 1 && evs[n] is Start,
        !moved(evs, n) && tgt(evs, n).is_some() ==> holes2 == holes + chain(evs, n).len() - 1,
        !moved(evs, n) && tgt(evs, n).is_none() ==> holes2 == holes,
    ensures so_far(evs, n + 1, res + e, holes2)
{
    let c = chain(evs, n);
    assert(evs.take(n + 1).drop_last() =~= evs.take(n));
    lemma_depth_concat(res, e);
    if moved(evs, n) {
        assert(res + e =~= res);
    } else {
        if tgt(evs, n).is_some() {
            lemma_chain(evs, n);
            assert forall|k: int| 0 <= k < e.len() implies (#[trigger] e[k]) is Start by { }
            lemma_starts_depth(e);
        } else {
            assert(e.drop_last() =~= Seq::<Event>::empty());
            assert(depth(e) == delta(evs[n])) by { assert(depth(e.drop_last()) == 0); }
            assert(raws(e.drop_last()) =~= Seq::<nat>::empty());
        }
        if balanced(evs) {
            assert forall|k: int| 0 < k < (res + e).len() implies #[trigger] inside(res + e, k) by {
                if k < res.len() {
                    assert(inside(res, k));
                    assert((res + e).take(k) =~= res.take(k));
                } else {
                    assert((res + e).take(k) =~= res + e.take(k - res.len()));
                    lemma_depth_concat(res, e.take(k - res.len()));
                    if n > 0 { assert(inside(evs, n)); } else { assert(evs.take(0) =~= Seq::<Event>::empty()); }
                    if k > res.len() { assert forall|l: int| 0 <= l < k - res.len() implies (#[trigger] e.take(k - res.len())[l]) is Start by { assert(e[l] is Start); } }
                    else { assert(e.take(0) =~= Seq::<Event>::empty()); }
                    lemma_starts_depth(e.take(k - res.len()));
                }
            }
        }
    }
    assert(raws(res + e) =~= raws(evs.take(n + 1)));
}

//@fn fall/parse/src/syn_engine/convert.rs reshuffle_events
pub fn reshuffle_events(events: &[Event]) -> «(r:» Vec<Event> «)
    requires fp_ok(events@)
    ensures r@ == in_place(events@, events@.len() as int), raws(r@) == raws(events@), r@.len() == events@.len(), balanced(events@) ==> balanced(r@)» {
    let mut result «: Vec<Event>» = Vec::with_capacity(events.len());
    let mut holes «: Vec<usize>» = Vec::new();
    let mut forward_parents «: Vec<(usize, NodeType)>» = Vec::new();
    «let ghost evs = events@;
    proof { assert(evs.take(0) =~= Seq::<Event>::empty()); }»

    {
        let mut i__0: usize = 0;
        while i__0 < events.len()
        «invariant
            i__0 <= evs.len(), evs == events@, fp_ok(evs), holes_ok(evs, i__0 as int, holes@), so_far(evs, i__0 as int, result@, holes@.len() as int)
         decreases evs.len() - i__0»
        {
            let j__0 = i__0;
            i__0 = i__0 + 1;
            let i = j__0;
            let e = events[j__0];
            «let ghost h0 = holes@;
            let ghost res0 = result@;
            proof { lemma_holes_top(evs, i as int, h0); }»
            if holes.last() == Some(&i) {
                «proof {
                    lemma_holes_pop(evs, i as int, h0);
                    lemma_so_far(evs, i as int, res0, h0.len() as int, placed(evs, i as int), h0.len() - 1);
                    assert(res0 + placed(evs, i as int) =~= res0);
                }»
                holes.pop();
                continue
            }
            match e {
                Event::Start { forward_parent: Some(_), .. } => {
                    «let ghost ch = chain(evs, i as int);
                    proof { lemma_chain(evs, i as int); }»
                    forward_parents.clear();
                    let mut idx = i;
                    loop
                    «invariant_except_break
                        forward_parents@.len() < ch.len(), idx == ch[forward_parents@.len() as int],
                     invariant
                        evs == events@, fp_ok(evs), ch == chain(evs, i as int), i < evs.len(), evs[i as int] is Start, tgt(evs, i as int).is_some(),
                        forward_parents@.len() <= ch.len(),
                        forall|k: int| 0 <= k < forward_parents@.len() ==> (#[trigger] forward_parents@[k]).0 == ch[k] && forward_parents@[k].1 == evs[ch[k]]->Start_ty,
                     ensures forward_parents@.len() == ch.len()
                     decreases evs.len() - idx»
                    {
                        «proof { lemma_chain(evs, i as int); let n = forward_parents@.len() as int; assert(tgt_ok(evs, ch[n])); assert(evs[ch[n]] is Start); }»
                        let (ty, fwd) = match events[idx] {
                            Event::Start { ty, forward_parent } => (ty, forward_parent),
                            _ => vpanic(),
                        };
                        forward_parents.push((idx, ty));
                        if let Some(fwd) = fwd {
                            idx += fwd as usize;
                        } else {
                            break;
                        }
                    }
                    «proof {}»
                    {
                        let mut i__1: usize = forward_parents.len();
                        while i__1 > 0
                        «invariant
                            i__1 <= forward_parents@.len(), forward_parents@.len() == ch.len(), ch.len() >= 2, ch == chain(evs, i as int),
                            forall|k: int| 0 <= k < forward_parents@.len() ==> (#[trigger] forward_parents@[k]).0 == ch[k] && forward_parents@[k].1 == evs[ch[k]]->Start_ty,
                            holes@.len() == h0.len() + ch.len() - i__1,
                            forall|k: int| 0 <= k < h0.len() ==> #[trigger] holes@[k] == h0[k],
                            forall|k: int| h0.len() <= k < holes@.len() ==> #[trigger] holes@[k] == ch[ch.len() - 1 - (k - h0.len())],
                            result@ =~= res0 + chain_starts(evs, i as int).take(ch.len() - i__1),
                         decreases i__1»
                        {
                            i__1 = i__1 - 1;
                            let idx = forward_parents[i__1].0;
                            let ty = forward_parents[i__1].1;
                            result.push(Event::Start { ty, forward_parent: None });
                            holes.push(idx);
                            «proof {
                                let cs = chain_starts(evs, i as int);
                                assert(cs.take(ch.len() - i__1) =~= cs.take(ch.len() - i__1 - 1).push(cs[ch.len() - i__1 - 1]));
                            }»
                        }
                    }
                    «proof {
                        let cs = chain_starts(evs, i as int);
                        assert(cs.take(ch.len() as int) =~= cs);
                        lemma_holes_chain(evs, i as int, h0, holes@.drop_last());
                        lemma_so_far(evs, i as int, res0, h0.len() as int, cs, h0.len() + ch.len() - 1);
                    }»
                    holes.pop();
                }
                _ => «{
                    proof {
                        lemma_holes_keep(evs, i as int, h0);
                        lemma_so_far(evs, i as int, res0, h0.len() as int, seq![evs[i as int]], h0.len() as int);
                        assert(res0 + seq![evs[i as int]] =~= res0.push(e));
                    }»
                    result.push(e) «}»
            }
        }
    }
    «proof {
        if holes@.len() > 0 { assert(holes@[0] < evs.len()); }
        assert(evs.take(evs.len() as int) =~= evs);
    }»
    result
}
//@end


// ---- the whole conversion -----------------------------------------------------------------------
/// enough tokens for token events of these sizes
pub open spec fn fits_raw(c: &Convertor, rs: Seq<nat>, rest: Seq<TokV>) -> bool
    decreases rs.len()
{
    if rs.len() == 0 { true } else {
        let n = c.ws_run(rest) + rs[0];
        n <= rest.len() && fits_raw(c, rs.skip(1), rest.skip(n as int))
    }
}
/// the tokens after those that token events of these sizes take
pub open spec fn after_raw(c: &Convertor, rs: Seq<nat>, rest: Seq<TokV>) -> Seq<TokV>
    decreases rs.len()
{
    if rs.len() == 0 { rest } else { after_raw(c, rs.skip(1), rest.skip((c.ws_run(rest) + rs[0]) as int)) }
}
pub proof fn lemma_fits_raw(c: &Convertor, evs: Seq<Event>, rest: Seq<TokV>)
    ensures c.fits(evs, rest) == fits_raw(c, raws(evs), rest), c.after(evs, rest) == after_raw(c, raws(evs), rest)
    decreases evs.len()
{
    if evs.len() > 0 {
        let e = seq![evs[0]];
        assert(e + evs.skip(1) =~= evs);
        lemma_depth_concat(e, evs.skip(1));
        assert(e.drop_last() =~= Seq::<Event>::empty());
        assert(raws(e.drop_last()) == Seq::<nat>::empty());
        match evs[0] {
            Event::Token { n_raw_tokens, .. } => {
                assert(raws(e) =~= seq![n_raw_tokens as nat]);
                assert(raws(evs).skip(1) =~= raws(evs.skip(1)));
                assert(raws(evs)[0] == n_raw_tokens as nat);
                lemma_fits_raw(c, evs.skip(1), rest.skip(c.ws_run(rest) + n_raw_tokens));
            }
            _ => {
                assert(raws(evs) =~= raws(evs.skip(1)));
                lemma_fits_raw(c, evs.skip(1), rest);
            }
        }
    } else {
        assert(raws(evs) =~= Seq::<nat>::empty());
    }
}
/// in a balanced sequence the nodes close at the end
pub proof fn lemma_balanced_closing(evs: Seq<Event>, n: int, d: nat)
    requires balanced(evs), 0 < n < evs.len(), depth(evs.take(n)) == d + 1
    ensures closing(evs.skip(n), d) == Some((evs.len() - n) as nat)
    decreases evs.len() - n
{
    let t = evs.skip(n);
    assert(evs.take(n + 1).drop_last() =~= evs.take(n));
    assert(t[0] == evs[n]);
    assert(t.skip(1) =~= evs.skip(n + 1));
    if n + 1 == evs.len() {
        assert(evs.take(n + 1) =~= evs);
        assert(closing(t.skip(1), 0).is_none());
        assert(t[0] == Event::End && d == 0);
    } else {
        assert(inside(evs, n + 1));
        match t[0] {
            Event::End => lemma_balanced_closing(evs, n + 1, (d - 1) as nat),
            Event::Start { .. } => lemma_balanced_closing(evs, n + 1, d + 1),
            _ => lemma_balanced_closing(evs, n + 1, d),
        }
    }
}
/// placing some spaces early leaves some spaces less
pub proof fn lemma_after_skip(c: &Convertor, evs: Seq<Event>, rest: Seq<TokV>, n: nat)
    requires c.fits(evs, rest), n <= c.ws_run(rest)
    ensures exists|m: nat| m <= c.ws_run(c.after(evs, rest)) && c.after(evs, rest.skip(n as int)) == #[trigger] c.after(evs, rest).skip(m as int)
    decreases evs.len()
{
    c.lemma_ws_run(rest);
    c.lemma_ws_run_skip(rest, n);
    if evs.len() == 0 {
        assert(c.after(evs, rest.skip(n as int)) == c.after(evs, rest).skip(n as int));
    } else {
        match evs[0] {
            Event::Token { n_raw_tokens, .. } => {
                assert(rest.skip(n as int).skip(c.ws_run(rest.skip(n as int)) + n_raw_tokens) =~= rest.skip(c.ws_run(rest) + n_raw_tokens));
                let a = c.after(evs, rest);
                assert(a.skip(0) =~= a);
                assert(c.after(evs, rest.skip(n as int)) == a.skip(0nat as int));
            }
            _ => lemma_after_skip(c, evs.skip(1), rest, n),
        }
    }
}

/// what is left is what comes after the last token, or less
pub proof fn lemma_run_rest(c: &Convertor, evs: Seq<Event>, s: CS)
    requires c.fits(evs, s.rest), c.whitespace_binder.ok()
    ensures exists|m: nat| m <= c.ws_run(c.after(evs, s.rest)) && c.run(evs, s).rest == #[trigger] c.after(evs, s.rest).skip(m as int)
    decreases evs.len()
{
    let a = c.after(evs, s.rest);
    if evs.len() == 0 {
        assert(a.skip(0nat as int) =~= a);
    } else {
        let (e, t) = (seq![evs[0]], evs.skip(1));
        assert(e + t =~= evs);
        c.lemma_run_concat(e, t, s);
        assert(e.drop_last() =~= Seq::<Event>::empty());
        assert(c.run(e, s) == c.step(evs[0], s)) by { assert(c.run(e.drop_last(), s) == s); }
        let s1 = c.step(evs[0], s);
        c.lemma_ws_run(s.rest);
        match evs[0] {
            Event::Token { n_raw_tokens, .. } => {
                assert(s1.rest =~= s.rest.skip(c.ws_run(s.rest) + n_raw_tokens));
                lemma_run_rest(c, t, s1);
            }
            Event::Cached { .. } => { lemma_run_rest(c, t, s1); }
            _ => {
                let l: nat = match evs[0] {
                    Event::Start { ty, .. } => (c.ws_run(s.rest) - c.claimed(ty, s.rest, true)) as nat,
                    _ => c.claimed(s.tys.last(), s.rest, false),
                };
                assert(spaces_of(s.rest.take(c.ws_run(s.rest) as int)).len() == c.ws_run(s.rest));
                assert(s1.rest == s.rest.skip(l as int));
                c.lemma_fits_skip(t, s.rest, l);
                lemma_after_skip(c, t, s.rest, l);
                let m0 = choose|m: nat| m <= c.ws_run(c.after(t, s.rest)) && c.after(t, s.rest.skip(l as int)) == #[trigger] c.after(t, s.rest).skip(m as int);
                lemma_run_rest(c, t, s1);
                let m1 = choose|m: nat| m <= c.ws_run(c.after(t, s1.rest)) && c.run(t, s1).rest == #[trigger] c.after(t, s1.rest).skip(m as int);
                c.lemma_ws_run_skip(a, m0);
                c.lemma_ws_run(a);
                assert(a.skip(m0 as int).skip(m1 as int) =~= a.skip((m0 + m1) as int));
            }
        }
    }
}
pub open spec fn all_spaces(c: &Convertor, s: Seq<TokV>) -> bool { c.ws_run(s) == s.len() }

/// the tokens with their texts
pub open spec fn texts(text: Seq<u8>, toks: Seq<Token>) -> Seq<TokV> {
    Seq::new(toks.len(), |i: int| TokV { ty: toks[i].ty, len: toks[i].len.0 as int, text: text.subrange(lens(toks.take(i)), lens(toks.take(i + 1))) })
}
pub open spec fn bnd_at(text: Seq<u8>, toks: Seq<Token>, i: int) -> bool { 0 <= lens(toks.take(i)) <= text.len() && bnd(text, lens(toks.take(i))) }
/// tokens tile the text and end between characters
pub open spec fn toks_tile(text: Seq<u8>, toks: Seq<Token>) -> bool {
    lens(toks) == text.len() && forall|i: int| 0 <= i <= toks.len() ==> #[trigger] bnd_at(text, toks, i)
}
pub proof fn lemma_lens_next(toks: Seq<Token>, i: int)
    requires 0 <= i < toks.len()
    ensures lens(toks.take(i + 1)) == lens(toks.take(i)) + toks[i].len.0
{
    assert(toks.take(i + 1).drop_last() =~= toks.take(i));
}
pub proof fn lemma_texts_sum(text: Seq<u8>, toks: Seq<Token>, n: int)
    requires 0 <= n <= toks.len()
    ensures sum_len(texts(text, toks).take(n)) == lens(toks.take(n))
    decreases n
{
    if n > 0 {
        lemma_texts_sum(text, toks, n - 1);
        assert(texts(text, toks).take(n).drop_last() =~= texts(text, toks).take(n - 1));
        lemma_lens_next(toks, n - 1);
    }
}
pub open spec fn empty_bv() -> BV { BV { ns: Seq::empty(), stack: Seq::empty(), pos: 0 } }

/// the tree that belongs to the events: the first one starts the root
pub open spec fn built(c: &Convertor, evs: Seq<Event>, toks: Seq<TokV>) -> CS {
    c.run(in_place(evs, evs.len() as int).skip(1), CS { rest: toks, b: empty_bv(), tys: Seq::empty() }.open(evs[0]->Start_ty))
}

//@fn fall/parse/src/syn_engine/convert.rs convert
pub fn convert(
    text: Text,
    tokens: &[Token],
    events: &[Event],
    is_whitespace: &IsWs,
    whitespace_binder: &Binder,
    builder: &mut TreeBuilder,
) «
    requires
        text.wf(), text.bounded(), toks_tile(text@, tokens@), whitespace_binder.ok(),
        fp_ok(events@), balanced(events@), events@[0] is Start, events@[0]->Start_forward_parent is None,
        fits_raw(&Convertor { is_whitespace, whitespace_binder }, raws(events@), texts(text@, tokens@)),
        tokens@.len() + events@.len() <= u32::MAX, old(builder).bv() == empty_bv(), old(builder).ok(),
    ensures
        final(builder).bv().inv(), final(builder).in_progress@.len() == 0, 0 < final(builder).nodes@.len() <= u32::MAX,
        final(builder).bv() == built(&Convertor { is_whitespace, whitespace_binder }, events@, texts(text@, tokens@)).b,
        forall|i: int| 0 <= i < final(builder).bv().ns.len() ==> span_bnd(text@, #[trigger] final(builder).bv().ns[i]),
        // C01: when the events take all tokens but spaces, and the root takes the spaces at the end, the tree covers the text
        all_spaces(&Convertor { is_whitespace, whitespace_binder }, after_raw(&Convertor { is_whitespace, whitespace_binder }, raws(events@), texts(text@, tokens@)))
            && (Convertor { is_whitespace, whitespace_binder }).takes_all(events@[0]->Start_ty) ==> final(builder).pos.0 == text@.len(),
»
{
    «let ghost evs = events@;
    let ghost toks = tokens@;
    let ghost tv = texts(text@, toks);
    let ghost cc = Convertor { is_whitespace, whitespace_binder };»
    let events = reshuffle_events(events);
    «proof {
        lemma_first_in_place(evs, evs.len() as int);
        lemma_fits_raw(&cc, events@, tv);
        lemma_texts_sum(text@, toks, toks.len() as int);
        assert(tv.take(toks.len() as int) =~= tv);
        assert(toks.take(toks.len() as int) =~= toks);
        assert(events@.take(1).drop_last() =~= Seq::<Event>::empty());
        assert(depth(events@.take(1)) == 1) by { assert(depth(events@.take(1).drop_last()) == 0); }
        assert(events@.take(events@.len() as int) =~= events@);
        assert(events@.len() > 1);
        lemma_balanced_closing(events@, 1, 0);
        assert(toks.take(0) =~= Seq::<Token>::empty());
    }»
    let (first, rest) = (events[0], &events[1..]);

    let mut len = tu(0);
    let tokens = {
        let mut r__0 «: Vec<(Token, Text)>» = Vec::new();
        let mut i__0: usize = 0;
        while i__0 < tokens.len()
        «invariant
            i__0 <= tokens@.len(), toks == tokens@, r__0@.len() == i__0, toks_ok(r__0@), len.0 == lens(toks.take(i__0 as int)), text.wf(), text.bounded(), toks_tile(text@, toks),
            tv == texts(text@, toks), forall|i: int| 0 <= i < i__0 ==> tokv(#[trigger] r__0@[i]) == tv[i]
         decreases tokens@.len() - i__0»
        {
            let j__0 = i__0;
            i__0 = i__0 + 1;
            let t = tokens[j__0];
            «proof { lemma_lens_next(toks, j__0 as int); assert(bnd_at(text@, toks, j__0 as int)); assert(bnd_at(text@, toks, j__0 + 1)); }»
            r__0.push({
                let token_text = text.slice(TextRange::from_len(len, t.len));
                «proof { lemma_bounded_slice(text, token_text, lens(toks.take(j__0 as int)), lens(toks.take(j__0 + 1))); }»
                len += t.len;
                (t, token_text)
            });
        }
        r__0
    };
    «proof {
        assert(tokvs(tokens@) =~= tv);
        lemma_fits_first(&cc, events@, tv);
        let s = CS { rest: tv, b: empty_bv(), tys: Seq::empty() };
    }»

    let conv = Convertor { is_whitespace, whitespace_binder };
    match first {
        Event::Start { ty, forward_parent: _ } => {
            conv.go(ty, &tokens, rest, builder«, Ghost(Seq::empty())»);
            «proof {
                assert(rest@.take(rest@.len() as int) =~= rest@);
                assert(rest@ =~= events@.skip(1));
                let s = CS { rest: tv, b: empty_bv(), tys: Seq::<NodeType>::empty() }.open(ty);
                lemma_run_rest(&cc, rest@, s);
                lemma_built_spans(&cc, text@, toks, events@);
                let a = cc.after(rest@, tv);
                let m = choose|m: nat| m <= cc.ws_run(cc.after(rest@, tv)) && cc.run(rest@, s).rest == #[trigger] cc.after(rest@, tv).skip(m as int);
                lemma_after_first(&cc, events@, tv);
                cc.lemma_ws_run_skip(a, m);
                cc.lemma_ws_run(a);
                if all_spaces(&cc, a) && cc.takes_all(ty) { assert(a.skip(m as int) =~= Seq::<TokV>::empty()); }
            }»
        }
        _ => vpanic()
    }
}
//@end

pub proof fn lemma_first_in_place(evs: Seq<Event>, n: int)
    requires 0 < n <= evs.len(), evs[0] is Start, evs[0]->Start_forward_parent is None
    ensures in_place(evs, n).len() > 0, in_place(evs, n)[0] == evs[0]
    decreases n
{
    if n == 1 {
        assert(in_place(evs, 0) =~= Seq::<Event>::empty());
        assert(!moved(evs, 0));
        assert(placed(evs, 0) =~= seq![evs[0]]);
    } else {
        lemma_first_in_place(evs, n - 1);
    }
}
pub proof fn lemma_fits_first(c: &Convertor, evs: Seq<Event>, rest: Seq<TokV>)
    requires evs.len() > 0, evs[0] is Start, c.fits(evs, rest)
    ensures c.fits(evs.skip(1), rest)
{
}
pub proof fn lemma_after_first(c: &Convertor, evs: Seq<Event>, rest: Seq<TokV>)
    requires evs.len() > 0, evs[0] is Start
    ensures c.after(evs.skip(1), rest) == c.after(evs, rest)
{
}
pub proof fn lemma_bounded_slice(text: Text, r: Text, a: int, b: int)
    requires text.wf(), text.bounded(), 0 <= a <= b <= text@.len(), bnd(text@, a), bnd(text@, b), r.owned == text.owned, r.range.start.0 == text.range.start.0 + a, r.range.end.0 == text.range.start.0 + b
    ensures r.bounded()
{
}

// ---- nodes are between characters ------------------------------------------------------------
pub open spec fn span_bnd(text: Seq<u8>, n: ND) -> bool { bnd(text, n.start) && bnd(text, n.end) }
/// the first `k` tokens are placed, and nodes start and end between characters
pub open spec fn spans_at(text: Seq<u8>, toks: Seq<Token>, s: CS, k: int) -> bool {
    &&& 0 <= k <= toks.len() && s.rest == texts(text, toks).skip(k) && s.b.pos == lens(toks.take(k))
    &&& forall|i: int| 0 <= i < s.b.ns.len() ==> span_bnd(text, #[trigger] s.b.ns[i])
    &&& forall|j: int| 0 <= j < s.b.stack.len() ==> 0 <= #[trigger] s.b.stack[j] < s.b.ns.len()
}
pub proof fn lemma_leaf_spans(text: Seq<u8>, toks: Seq<Token>, s: CS, k: int, ty: NodeType, n: nat)
    requires toks_tile(text, toks), spans_at(text, toks, s, k), k + n <= toks.len(), s.b.stack.len() > 0
    ensures spans_at(text, toks, s.leaf(ty, n), k + n), s.leaf(ty, n).b.stack == s.b.stack
{
    let tv = texts(text, toks);
    lemma_texts_sum(text, toks, k);
    lemma_texts_sum(text, toks, k + n);
    lemma_sum_split(tv.take(k + n), k);
    assert(tv.take(k + n).take(k) =~= tv.take(k));
    assert(tv.take(k + n).skip(k) =~= s.rest.take(n as int));
    assert(tv.skip(k).skip(n as int) =~= tv.skip(k + n));
    assert(bnd_at(text, toks, k) && bnd_at(text, toks, k + n));
}
pub proof fn lemma_leaves_spans(text: Seq<u8>, toks: Seq<Token>, s: CS, k: int, n: nat)
    requires toks_tile(text, toks), spans_at(text, toks, s, k), k + n <= toks.len(), s.b.stack.len() > 0
    ensures spans_at(text, toks, s.take(n), k + n), s.take(n).b.stack == s.b.stack
    decreases n
{
    let tv = texts(text, toks);
    assert(tv.skip(k).skip(n as int) =~= tv.skip(k + n));
    if n > 0 {
        let t = s.take((n - 1) as nat);
        lemma_leaves_spans(text, toks, s, k, (n - 1) as nat);
        assert(s.rest.take(n as int).drop_last() =~= s.rest.take(n - 1));
        assert(s.rest.take(n as int).last() == tv[k + n - 1]);
        lemma_leaf_spans(text, toks, t, k + n - 1, tv[k + n - 1].ty, 1);
        assert(t.rest.take(1).drop_last() =~= Seq::<TokV>::empty());
        assert(t.rest.take(1).last() == tv[k + n - 1]);
        assert(sum_len(t.rest.take(1)) == tv[k + n - 1].len) by { assert(sum_len(t.rest.take(1).drop_last()) == 0); }
    } else {
        assert(s.rest.take(0) =~= Seq::<TokV>::empty());
    }
}
pub proof fn lemma_step_spans(c: &Convertor, text: Seq<u8>, toks: Seq<Token>, e: Event, s: CS, k: int)
    requires toks_tile(text, toks), spans_at(text, toks, s, k), s.b.stack.len() > 0, c.whitespace_binder.ok(), c.fits(seq![e], s.rest)
    ensures exists|m: int| #[trigger] spans_at(text, toks, c.step(e, s), m),
        c.step(e, s).b.stack.len() == s.b.stack.len() + if e is Start { 1int } else if e is End { -1 } else { 0 }
{
    c.lemma_ws_run(s.rest);
    let w = c.ws_run(s.rest);
    assert(spaces_of(s.rest.take(w as int)).len() == w);
    match e {
        Event::Start { ty, .. } => {
            let l = (w - c.claimed(ty, s.rest, true)) as nat;
            lemma_leaves_spans(text, toks, s, k, l);
            let t = s.take(l);
            assert(bnd_at(text, toks, k + l));
            assert(t.b.open(ty).ns.len() == t.b.ns.len() + 1);
            assert(c.step(e, s) == t.open(ty));
            assert(spans_at(text, toks, t.open(ty), k + l));
        }
        Event::Token { ty, n_raw_tokens } => {
            lemma_leaves_spans(text, toks, s, k, w);
            lemma_leaf_spans(text, toks, s.take(w), k + w, ty, n_raw_tokens as nat);
            assert(spans_at(text, toks, c.step(e, s), k + w + n_raw_tokens));
        }
        Event::End => {
            let l = c.claimed(s.tys.last(), s.rest, false);
            lemma_leaves_spans(text, toks, s, k, l);
            let t = s.take(l);
            assert(span_bnd(text, t.b.ns[t.b.top()]));
            assert(c.step(e, s) == t.close());
            assert(spans_at(text, toks, t.close(), k + l));
        }
        Event::Cached { .. } => { assert(spans_at(text, toks, s, k)); }
    }
}
pub proof fn lemma_run_spans(c: &Convertor, text: Seq<u8>, toks: Seq<Token>, evs: Seq<Event>, s: CS, k: int)
    requires
        toks_tile(text, toks), spans_at(text, toks, s, k), s.b.stack.len() > 0, c.whitespace_binder.ok(), c.fits(evs, s.rest),
        closing(evs, (s.b.stack.len() - 1) as nat) == Some(evs.len()),
    ensures exists|m: int| #[trigger] spans_at(text, toks, c.run(evs, s), m)
    decreases evs.len()
{
    let (e, t) = (seq![evs[0]], evs.skip(1));
    assert(e + t =~= evs);
    c.lemma_run_concat(e, t, s);
    assert(e.drop_last() =~= Seq::<Event>::empty());
    assert(c.run(e, s) == c.step(evs[0], s)) by { assert(c.run(e.drop_last(), s) == s); }
    assert(e.skip(1) =~= Seq::<Event>::empty());
    assert(c.fits(e, s.rest)) by { if evs[0] is Token { assert(c.fits(e.skip(1), s.rest.skip((c.ws_run(s.rest) + evs[0]->n_raw_tokens) as int))); } else { assert(c.fits(e.skip(1), s.rest)); } }
    lemma_step_spans(c, text, toks, evs[0], s, k);
    let s1 = c.step(evs[0], s);
    let m = choose|m: int| #[trigger] spans_at(text, toks, s1, m);
    if t.len() == 0 {
        assert(c.run(t, s1) == s1);
    } else {
        lemma_step_fits(c, evs, s);
        lemma_run_spans(c, text, toks, t, s1, m);
    }
}
pub proof fn lemma_step_fits(c: &Convertor, evs: Seq<Event>, s: CS)
    requires evs.len() > 0, c.fits(evs, s.rest), c.whitespace_binder.ok()
    ensures c.fits(evs.skip(1), c.step(evs[0], s).rest)
{
    let t = evs.skip(1);
    c.lemma_ws_run(s.rest);
    assert(spaces_of(s.rest.take(c.ws_run(s.rest) as int)).len() == c.ws_run(s.rest));
    match evs[0] {
        Event::Token { n_raw_tokens, .. } => { assert(c.step(evs[0], s).rest =~= s.rest.skip(c.ws_run(s.rest) + n_raw_tokens)); }
        Event::Cached { .. } => {}
        Event::Start { ty, .. } => { c.lemma_fits_skip(t, s.rest, (c.ws_run(s.rest) - c.claimed(ty, s.rest, true)) as nat); }
        Event::End => { c.lemma_fits_skip(t, s.rest, c.claimed(s.tys.last(), s.rest, false)); }
    }
}
/// nodes of a tree which is made of events start and end between characters
pub proof fn lemma_built_spans(c: &Convertor, text: Seq<u8>, toks: Seq<Token>, evs: Seq<Event>)
    requires
        toks_tile(text, toks), c.whitespace_binder.ok(), evs.len() > 1, evs[0] is Start,
        c.fits(evs.skip(1), texts(text, toks)), closing(evs.skip(1), 0) == Some((evs.len() - 1) as nat),
    ensures ({
        let b = c.run(evs.skip(1), CS { rest: texts(text, toks), b: empty_bv(), tys: Seq::<NodeType>::empty() }.open(evs[0]->Start_ty)).b;
        forall|i: int| 0 <= i < b.ns.len() ==> span_bnd(text, #[trigger] b.ns[i])
    })
{
    let tv = texts(text, toks);
    let s = CS { rest: tv, b: empty_bv(), tys: Seq::<NodeType>::empty() }.open(evs[0]->Start_ty);
    assert(toks.take(0) =~= Seq::<Token>::empty());
    assert(tv.skip(0) =~= tv);
    assert(bnd_at(text, toks, 0));
    assert(s.b.stack.len() == 1);
    assert(spans_at(text, toks, s, 0));
    lemma_run_spans(c, text, toks, evs.skip(1), s, 0);
}

} // verus!
