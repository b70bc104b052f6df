// The parser's state: fall/parse/src/syn_engine/parser.rs
//@owner C12 C13 C14
//@rewrite & dyn Fn ( Token ) -> bool ==> & TokIsWs
//@rewrite HashMap < ( TextUnit , ExprRef ) , ( u32 , u32 , u32 ) > ==> Cache
//@rewrite self . events . push ( event ) ==> push_event ( & mut self . events , event )
//@rewrite self . events . extend_from_slice ( $e ) ==> extend_events ( & mut self . events , $e )
//@rewrite self . ticks += 1 ==> self . ticks = next_tick ( self . ticks )
//@rewrite rollback__truncate_fast ( ==> truncate_fast (
verus! {

/// `HashMap<(TextUnit, ExprRef), (u32, u32, u32)>`
#[verifier::external_body]
pub struct Cache { x: u8 }
impl Cache {
    pub uninterp spec fn at(&self, k: (TextUnit, ExprRef)) -> Option<(u32, u32, u32)>;
    #[verifier::external_body]
    pub fn get(&self, k: &(TextUnit, ExprRef)) -> (r: Option<&(u32, u32, u32)>)
        ensures match r { Some(v) => self.at(*k) == Some(*v), None => self.at(*k).is_none() }
    { unimplemented!() }
}
/// fewer than 2^31 events fit into memory
#[verifier::external_body]
pub fn push_event(v: &mut Vec<Event>, e: Event)
    ensures final(v)@ == old(v)@.push(e), final(v)@.len() < 0x8000_0000
{ unimplemented!() }
#[verifier::external_body]
pub fn extend_events(v: &mut Vec<Event>, e: &[Event])
    ensures final(v)@ == old(v)@ + e@, final(v)@.len() < 0x8000_0000
{ unimplemented!() }
/// fewer than 2^64 steps
#[verifier::external_body]
pub fn next_tick(t: u64) -> (r: u64) { t + 1 }
/// `Vec::set_len` to at most the length
#[verifier::external_body]
pub fn truncate_fast<T>(xs: &mut Vec<T>, len: usize)
    requires len <= old(xs)@.len()
    ensures final(xs)@ == old(xs)@.take(len as int)
{ unimplemented!() }
/// `&dyn Fn(Token) -> bool` that looks at the type only
#[verifier::external_body]
pub struct TokIsWs { x: u8 }
impl TokIsWs {
    pub uninterp spec fn is(&self, ty: NodeType) -> bool;
    #[verifier::external_body]
    pub fn call(&self, t: Token) -> (r: bool)
        ensures r == self.is(t.ty)
    { unimplemented!() }
}

//@item fall/parse/src/syn_engine/parser.rs struct:Parser
pub struct Parser<'g> {
    pub cache: Option<(Cache, &'g [Event])>,
    pub grammar: &'g Grammar<'g>,
    pub text: Text<'g>,
    pub tokens: &'g [Token],
    pub non_ws_indexes: Vec<(TextUnit, usize)>,

    pub ticks: u64,
    pub events: Vec<Event>,
    pub replacement: Option<NodeTypeRef>,
    pub predicate_mode: bool,
    pub contexts: [bool; 16],
    pub args: [Option<ExprRef>; 16],
    pub prev: Option<NodeType>,
    «pub q: Ghost<Q>,»
}
//@end
//@item fall/parse/src/syn_engine/parser.rs struct:Pos
«#[derive(Copy, Clone, PartialEq, Eq, Structural)]»
pub struct Pos(pub u32, pub u32);
//@end
//@item fall/parse/src/syn_engine/parser.rs struct:Mark
pub struct Mark(pub u32);
//@end

// ---- what does not change while parsing ------------------------------------------------------
pub struct Env<'g> {
    pub rules: Seq<Expr>,
    pub tys: Seq<NodeType>,
    pub text: Text<'g>,
    pub tokens: Seq<Token>,
    pub nw: Seq<(TextUnit, usize)>,
    pub cache: Option<(Cache, &'g [Event])>,
    pub q: Q,
}
/// an expression can be used where these parameters are bound
pub open spec fn usable(v: Env, x: ExprRef, args: Seq<Option<ExprRef>>) -> bool {
    x.0 < v.rules.len() && forall|i: int| #[trigger] (v.q.need)(x).contains(i) ==> 0 <= i < args.len() && args[i].is_some()
}
pub open spec fn all_usable(v: Env, xs: Seq<ExprRef>, args: Seq<Option<ExprRef>>) -> bool { forall|k: int| 0 <= k < xs.len() ==> usable(v, #[trigger] xs[k], args) }
pub open spec fn arg_ok(v: Env, args: Seq<Option<ExprRef>>, i: int) -> bool { args[i].is_some() ==> usable(v, args[i]->0, args) }
pub open spec fn args_ok(v: Env, args: Seq<Option<ExprRef>>) -> bool { args.len() == 16 && forall|i: int| 0 <= i < 16 ==> #[trigger] arg_ok(v, args, i) }
pub open spec fn repl_ok(v: Env, t: Option<NodeTypeRef>) -> bool { t matches Some(t) ==> ty_ok(v, t) }
pub open spec fn st_ok(v: Env, st: St) -> bool { st.ctx.len() == 16 && args_ok(v, st.args) && repl_ok(v, st.repl) }

/// what is in force in the beginning
pub open spec fn start_st() -> St { St { ctx: Seq::new(16, |i: int| false), args: Seq::new(16, |i: int| None), prev: None, repl: None } }
pub open spec fn ty_ok(v: Env, t: NodeTypeRef) -> bool { t.0 < v.tys.len() }
/// what `y` needs, `x` needs
pub open spec fn sub(v: Env, x: ExprRef, y: ExprRef) -> bool { y.0 < v.rules.len() && (v.q.need)(y).subset_of((v.q.need)(x)) }
pub open spec fn subs(v: Env, x: ExprRef, ys: Seq<ExprRef>) -> bool { forall|k: int| 0 <= k < ys.len() ==> sub(v, x, #[trigger] ys[k]) }
pub open spec fn binds(args: Seq<(Arg, ExprRef)>, i: int) -> bool { exists|k: int| 0 <= k < args.len() && (#[trigger] args[k]).0.0 == i }
/// what `y` needs is bound by the call or needed by the call `x`
pub open spec fn sub_call(v: Env, x: ExprRef, args: Seq<(Arg, ExprRef)>, y: ExprRef) -> bool {
    y.0 < v.rules.len() && forall|i: int| #[trigger] (v.q.need)(y).contains(i) ==> binds(args, i) || (v.q.need)(x).contains(i)
}
pub open spec fn call_arg_ok(v: Env, x: ExprRef, args: Seq<(Arg, ExprRef)>, k: int) -> bool {
    let (i, y) = args[k];
    i.0 < 16 && y.0 < v.rules.len() && match v.rules[y.0 as int] { Expr::Var(j) => (v.q.need)(x).contains(j.0 as int), _ => sub_call(v, x, args, y) }
}
pub open spec fn prefix_ok(v: Env, x: ExprRef, t: PrattTable, k: int) -> bool { ty_ok(v, t.prefixes@[k].ty) && sub(v, x, t.prefixes@[k].op) }
pub open spec fn infix_ok(v: Env, x: ExprRef, t: PrattTable, k: int) -> bool { ty_ok(v, t.infixes@[k].ty) && sub(v, x, t.infixes@[k].op) && t.infixes@[k].priority < u32::MAX }
/// rules refer to what there is, and bind the parameters that are used
pub open spec fn rule_ok(v: Env, i: int) -> bool {
    let x = ExprRef(i as u32);
    match v.rules[i] {
        Expr::Pub { ty, body, .. } => ty_ok(v, ty) && sub(v, x, body),
        Expr::PubReplace { ty, body } => ty_ok(v, ty) && sub(v, x, body),
        Expr::Or(parts) => subs(v, x, parts@),
        Expr::And(parts, commit) => subs(v, x, parts@) && (commit matches Some(c) ==> c <= parts@.len()),
        Expr::Token(ty) => ty_ok(v, ty),
        Expr::ContextualToken(ty, text) => ty_ok(v, ty) && text@.len() < 65536,
        Expr::Rep(y) => sub(v, x, y),
        Expr::WithSkip(y, z) => sub(v, x, y) && sub(v, x, z),
        Expr::Opt(y) => sub(v, x, y),
        Expr::Not(y) => sub(v, x, y),
        Expr::Eof => true,
        Expr::Any => true,
        Expr::Layer(y, z) => sub(v, x, y) && sub(v, x, z),
        Expr::Pratt(t) => subs(v, x, t.atoms@) && (forall|k: int| 0 <= k < t.prefixes@.len() ==> #[trigger] prefix_ok(v, x, *t, k)) && (forall|k: int| 0 <= k < t.infixes@.len() ==> #[trigger] infix_ok(v, x, *t, k)),
        Expr::Enter(c, y) => c.0 < 16 && sub(v, x, y),
        Expr::Exit(c, y) => c.0 < 16 && sub(v, x, y),
        Expr::IsIn(c) => c.0 < 16,
        Expr::Call(y, args) => sub_call(v, x, args@, y) && forall|k: int| 0 <= k < args@.len() ==> #[trigger] call_arg_ok(v, x, args@, k),
        Expr::Var(j) => (v.q.need)(x).contains(j.0 as int),
        Expr::PrevIs(ts) => forall|k: int| 0 <= k < ts@.len() ==> ty_ok(v, #[trigger] ts@[k]),
        Expr::Inject(y, z) => sub(v, x, y) && sub(v, x, z),
        Expr::Cached(y) => sub(v, x, y),
    }
}
pub open spec fn table_usable(v: Env, t: PrattTable, args: Seq<Option<ExprRef>>) -> bool {
    &&& all_usable(v, t.atoms@, args)
    &&& forall|k: int| 0 <= k < t.prefixes@.len() ==> ty_ok(v, (#[trigger] t.prefixes@[k]).ty) && usable(v, t.prefixes@[k].op, args)
    &&& forall|k: int| 0 <= k < t.infixes@.len() ==> ty_ok(v, (#[trigger] t.infixes@[k]).ty) && usable(v, t.infixes@[k].op, args) && t.infixes@[k].priority < u32::MAX
}
/// whenever it succeeds (and takes tokens, if `moves`), a node comes first
pub open spec fn opens(v: Env, x: ExprRef, moves: bool) -> bool {
    forall|st: St, a: int, e: int| ((#[trigger] (v.q.s)(Item::E(x), st, a, e)) matches Some(o) && o.res.is_some() && (moves ==> o.res != Some(a))) ==> starts((v.q.s)(Item::E(x), st, a, e)->0.ev)
}
pub open spec fn atoms_open(v: Env, t: PrattTable) -> bool { forall|k: int| 0 <= k < t.atoms@.len() ==> opens(v, #[trigger] t.atoms@[k], false) }
/// operands of operators, and what is injected into each other, start with nodes
pub open spec fn rule_opens(v: Env, i: int) -> bool {
    match v.rules[i] {
        Expr::Inject(y, z) => opens(v, y, true) && opens(v, z, false),
        Expr::Pratt(t) => atoms_open(v, *t),
        _ => true,
    }
}
/// a contextual token does not have spaces in it
pub open spec fn contextual_ok(v: Env, text: Seq<u8>) -> bool {
    forall|a: int, e: int| 0 <= a <= e <= v.nw.len() && (#[trigger] v.inp().by_text(a, e, text)).is_some() ==> contiguous(v.inp(), a, v.inp().by_text(a, e, text)->0 as nat)
}
pub open spec fn rule_text_ok(v: Env, i: int) -> bool {
    match v.rules[i] { Expr::ContextualToken(ty, text) => contextual_ok(v, text@), _ => true }
}
pub open spec fn nw_ok(v: Env, i: int) -> bool {
    v.nw[i].1 < v.tokens.len() && v.tokens[v.nw[i].1 as int].len.0 > 0 && v.nw[i].0.0 <= v.text@.len() && bnd(v.text@, v.nw[i].0.0 as int)
}
/// what a cached rule gave before is what it gives now
pub open spec fn hit_ok(v: Env, c: Cache, evs: Seq<Event>, k: (TextUnit, ExprRef)) -> bool {
    c.at(k) matches Some((start, n, len)) ==> {
        &&& 0 < start && start + n <= evs.len() && evs.len() <= u32::MAX && evs[start - 1] is Cached && repl_ok(v, evs[start - 1]->Cached_replacement)
        &&& forall|st: St, a: int, e: int| st_ok(v, st) && 0 <= a && a < e <= v.nw.len() && v.nw[a].0 == k.0 && a + len <= e ==>
            (#[trigger] (v.q.s)(Item::E(k.1), st.at(None, None), a, e)) == Some(Out {
                res: Some(a + len), ev: evs.subrange(start as int, start + n), prev: evs[start - 1]->Cached_prev, repl: evs[start - 1]->Cached_replacement })
                && good(v.inp(), evs.subrange(start as int, start + n), a, a + len)
    }
}
pub open spec fn cache_ok(v: Env) -> bool {
    v.cache matches Some((c, evs)) ==> forall|t: TextUnit, x: ExprRef| #[trigger] hit_ok(v, c, evs@, (t, x))
}
impl<'g> Env<'g> {
    pub open spec fn inp(self) -> Inp {
        Inp {
            rules: self.rules, tys: self.tys, text: self.text@, q: self.q,
            toks: Seq::new(self.nw.len(), |i: int| Tk { ty: self.tokens[self.nw[i].1 as int].ty, len: self.tokens[self.nw[i].1 as int].len.0 as int, start: self.nw[i].0.0 as int, raw: self.nw[i].1 as int }),
        }
    }
    pub open spec fn ok(self) -> bool {
        &&& self.text.wf() && self.text.bounded() && self.tokens.len() <= u32::MAX && self.nw.len() <= u32::MAX && self.rules.len() <= u32::MAX
        &&& forall|i: int| 0 <= i < self.nw.len() ==> #[trigger] nw_ok(self, i)
        &&& forall|i: int| 0 <= i < self.rules.len() ==> #[trigger] rule_ok(self, i)
        &&& forall|i: int| 0 <= i < self.rules.len() ==> #[trigger] rule_opens(self, i)
        &&& forall|i: int| 0 <= i < self.rules.len() ==> #[trigger] rule_text_ok(self, i)
        &&& solves(self.q.s, self.inp())
        &&& cache_ok(self)
    }
}
/// the node that starts at `i` is inside of (or is) the node that is around what starts first
pub open spec fn wrappable(ev: Seq<Event>, i: int) -> bool {
    starts(ev) && fp_ok(ev) && 0 <= i < ev.len() && ev[i] is Start && top(ev, i) == top(ev, 0)
}
impl<'g> Parser<'g> {
    pub open spec fn env(&self) -> Env<'g> {
        Env { rules: self.grammar.rules@, tys: self.grammar.node_types@, text: self.text, tokens: self.tokens@, nw: self.non_ws_indexes@, cache: self.cache, q: self.q@ }
    }
    pub open spec fn st(&self) -> St { St { ctx: self.contexts@, args: self.args@, prev: self.prev, repl: self.replacement } }
    pub open spec fn wf(&self) -> bool { self.env().ok() && self.events@.len() < 0x8000_0000 }
    pub open spec fn pos_ok(&self, t: Pos) -> bool { t.0 <= t.1 && t.1 <= self.non_ws_indexes@.len() }
    /// nothing but events, previous node, replacement and the counter may differ
    pub open spec fn same(&self, o: &Parser<'g>) -> bool {
        &&& self.env() == o.env() && self.grammar == o.grammar && self.predicate_mode == o.predicate_mode
        &&& self.contexts@ == o.contexts@ && self.args@ == o.args@ && self.events@.len() < 0x8000_0000
    }
        pub open spec fn only_events(&self, o: &Parser<'g>) -> bool { self.same(o) && self.prev == o.prev && self.replacement == o.replacement }
    pub open spec fn emitted(&self, ev: Seq<Event>) -> Seq<Event> { if self.predicate_mode { Seq::empty() } else { ev } }
}
pub open spec fn extends(a: Seq<Event>, b: Seq<Event>) -> bool { a.len() <= b.len() && b.take(a.len() as int) =~= a }
/// the parser has done what the outcome says; if it fails it may leave events
pub open spec fn tried(p0: Parser, p1: Parser, o: Option<Out>, t: Pos, r: Option<Pos>) -> bool {
    &&& p1.same(&p0)
    &&& o.is_some() && p1.prev == o->0.prev && p1.replacement == o->0.repl && repl_ok(p1.env(), p1.replacement)
    &&& match r {
        Some(q) => {
            &&& o->0.res == Some(q.0 as int) && q.1 == t.1 && t.0 <= q.0 <= q.1
            &&& p1.events@ =~= p0.events@ + p0.emitted(o->0.ev)
            &&& !p0.predicate_mode ==> good(p0.env().inp(), o->0.ev, t.0 as int, q.0 as int)
        }
        None => o->0.res.is_none() && o->0.ev.len() == 0 && extends(p0.events@, p1.events@)
    }
}

impl Pos {
//@fn fall/parse/src/syn_engine/parser.rs Pos::next
    pub fn next(self) -> «(r:» Pos «) requires self.0 < u32::MAX ensures r.0 == self.0 + 1, r.1 == self.1» {
        Pos(self.0 + 1, self.1)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Pos::is_empty
    pub fn is_empty(self) -> «(r:» bool «) ensures r == (self.0 == self.1)» {
        self.0 == self.1
    }
//@end
}

impl<'g> vstd::std_specs::core::IndexSpecImpl<ExprRef> for Grammar<'g> {
    open spec fn index_req(&self, index: &ExprRef) -> bool { index.0 < self.rules@.len() }
}
impl<'g> ::std::ops::Index<ExprRef> for Grammar<'g> {
    type Output = Expr;
//@rewrite1 rules [ index ] ==> rules [ index . 0 as usize ]
//@fn fall/parse/src/syn_engine/mod.rs <Grammar as Index<ExprRef>>::index
    fn index(&self, index: ExprRef) -> «(r:» &Self::Output «) ensures *r == self.rules@[index.0 as int]» {
        &self.rules[index.0 as usize]
    }
//@end
}
impl<'g> vstd::std_specs::core::IndexSpecImpl<Pos> for Parser<'g> {
    open spec fn index_req(&self, index: &Pos) -> bool { index.0 < self.non_ws_indexes@.len() && self.env().ok() }
}
impl<'g> ::std::ops::Index<Pos> for Parser<'g> {
    type Output = Token;
//@fn fall/parse/src/syn_engine/parser.rs <Parser as Index<Pos>>::index
    fn index(&self, index: Pos) -> «(r:» &Self::Output «) ensures *r == self.tokens@[self.non_ws_indexes@[index.0 as int].1 as int]» {
        «proof { assert(nw_ok(self.env(), index.0 as int)); }»
        &self.tokens[self.non_ws_indexes[index.0 as usize].1]
    }
//@end
}
impl<'g> vstd::std_specs::core::IndexSpecImpl<NodeTypeRef> for Parser<'g> {
    open spec fn index_req(&self, index: &NodeTypeRef) -> bool { index.0 < self.grammar.node_types@.len() }
}
impl<'g> ::std::ops::Index<NodeTypeRef> for Parser<'g> {
    type Output = NodeType;
//@rewrite1 node_types [ index ] ==> node_types [ index . 0 as usize ]
//@fn fall/parse/src/syn_engine/parser.rs <Parser as Index<NodeTypeRef>>::index
    fn index(&self, index: NodeTypeRef) -> «(r:» &Self::Output «) ensures *r == self.grammar.node_types@[index.0 as int]» {
        &self.grammar.node_types[index.0 as usize]
    }
//@end
}

/// positions and numbers of the tokens which are not spaces, among the first `n`
pub open spec fn non_ws(w: spec_fn(NodeType) -> bool, toks: Seq<Token>, n: int) -> Seq<(TextUnit, usize)>
    decreases n
{
    if n <= 0 { Seq::empty() } else if w(toks[n - 1].ty) { non_ws(w, toks, n - 1) } else {
        non_ws(w, toks, n - 1).push((TextUnit(lens(toks.take(n - 1)) as u32), (n - 1) as usize))
    }
}
pub proof fn lemma_lens_mono(toks: Seq<Token>, i: int, j: int)
    requires 0 <= i <= j <= toks.len()
    ensures lens(toks.take(i)) <= lens(toks.take(j))
    decreases j - i
{
    if i < j {
        lemma_lens_mono(toks, i, j - 1);
        assert(toks.take(j).drop_last() =~= toks.take(j - 1));
    }
}

impl<'g> Parser<'g> {
//@rewrite1 is_ws ( t ) ==> is_ws . call ( t )
//@fn fall/parse/src/syn_engine/parser.rs Parser::new
    pub fn new(
        cache: Option<(Cache, &'g [Event])>,
        grammar: &'g Grammar<'g>,
        is_ws: &TokIsWs,
        text: Text<'g>,
        tokens: &'g [Token],
        «Ghost(q): Ghost<Q>,»
    ) -> «(r:» (Parser<'g>, Pos) «)
        requires tokens@.len() <= u32::MAX, lens(tokens@) <= u32::MAX
        ensures
            r.0.env() == (Env { rules: grammar.rules@, tys: grammar.node_types@, text, tokens: tokens@, nw: non_ws(|ty: NodeType| is_ws.is(ty), tokens@, tokens@.len() as int), cache, q }),
            r.0.grammar == grammar, r.0.events@.len() == 0, !r.0.predicate_mode, r.0.st() == start_st(), r.1 == Pos(0, r.0.non_ws_indexes@.len() as u32), r.0.non_ws_indexes@.len() <= u32::MAX,»
    {
        «let ghost w = |ty: NodeType| is_ws.is(ty);»
        let non_ws_indexes = {
            let mut indexes «: Vec<(TextUnit, usize)>» = Vec::new();
            let mut len = tu(0);
            {
                let mut i__0: usize = 0;
                while i__0 < tokens.len()
                «invariant i__0 <= tokens@.len() <= u32::MAX, lens(tokens@) <= u32::MAX, len.0 == lens(tokens@.take(i__0 as int)), w == (|ty: NodeType| is_ws.is(ty)), indexes@ == non_ws(w, tokens@, i__0 as int), indexes@.len() <= i__0
                 decreases tokens@.len() - i__0»
                {
                    «proof {
                        lemma_lens_mono(tokens@, i__0 + 1, tokens@.len() as int);
                        assert(tokens@.take(tokens@.len() as int) =~= tokens@);
                        assert(tokens@.take(i__0 + 1).drop_last() =~= tokens@.take(i__0 as int));
                    }»
                    let j__0 = i__0;
                    i__0 = i__0 + 1;
                    let i = j__0;
                    let t = tokens[j__0];
                    if !is_ws.call(t) {
                        indexes.push((len, i))
                    }
                    len += t.len
                }
            }
            indexes
        };

        let pos = Pos(0, non_ws_indexes.len() as u32);

        let parser = Parser {
            cache,
            grammar,
            text,
            tokens,
            non_ws_indexes,

            ticks: 0,
            events: Vec::new(),
            replacement: None,
            predicate_mode: false,
            contexts: [false; 16],
            args: [None; 16],
            prev: None,
            «q: Ghost(q),»
        };
        «proof {
            assert(parser.contexts@ =~= start_st().ctx);
            assert(parser.args@ =~= start_st().args);
        }»
        (parser, pos)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::done
    pub fn done(self) -> «(r:» (Vec<Event>, u64) «) ensures r.0 == self.events» {
        (self.events, self.ticks)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::tick
    pub fn tick(&mut self) «requires old(self).wf() ensures final(self).only_events(old(self)), final(self).events == old(self).events» {
        self.ticks = next_tick(self.ticks)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::event
    pub fn event(&mut self, event: Event) «requires old(self).wf()
        ensures final(self).only_events(old(self)), final(self).events@ == old(self).events@ + old(self).emitted(seq![event])»
    {
        if !self.predicate_mode {
            push_event(&mut self.events, event)
        }
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::start_ty
    pub fn start_ty(&mut self, ty: NodeType) -> «(r:» Mark «) requires old(self).wf()
        ensures final(self).only_events(old(self)), final(self).events@ == old(self).events@ + old(self).emitted(seq![open_ev(ty)]), r.0 == old(self).events@.len()»
    {
        let mark = Mark(self.events.len() as u32);
        self.event(Event::Start { ty, forward_parent: None });
        mark
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::start
    pub fn start(&mut self, ty_idx: NodeTypeRef) -> «(r:» Mark «) requires old(self).wf(), ty_ok(old(self).env(), ty_idx)
        ensures final(self).only_events(old(self)), final(self).events@ == old(self).events@ + old(self).emitted(seq![open_ev(old(self).env().inp().ty(ty_idx))]), r.0 == old(self).events@.len()»
    {
        let ty = self[ty_idx];
        self.start_ty(ty)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::start_error
    pub fn start_error(&mut self) «requires old(self).wf()
        ensures final(self).only_events(old(self)), final(self).events@ == old(self).events@ + old(self).emitted(seq![open_ev(ERROR)])»
    {
        self.start_ty(ERROR);
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::finish
    pub fn finish(&mut self) «requires old(self).wf()
        ensures final(self).only_events(old(self)), final(self).events@ == old(self).events@ + old(self).emitted(seq![Event::End])»
    {
        self.event(Event::End)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::token
    pub fn token(&mut self, ty: NodeType, n_raw_tokens: u16) «requires old(self).wf()
        ensures final(self).only_events(old(self)), final(self).events@ == old(self).events@ + old(self).emitted(seq![Event::Token { ty, n_raw_tokens }])»
    {
        self.event(Event::Token { ty, n_raw_tokens });
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::mark
    pub fn mark(&self) -> «(r:» Mark «) requires self.wf() ensures r.0 == self.events@.len()» {
        Mark(self.events.len() as u32)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::rollback
    pub fn rollback(&mut self, mark: Mark) «requires old(self).wf(), mark.0 <= old(self).events@.len()
        ensures final(self).only_events(old(self)), final(self).events@ == old(self).events@.take(mark.0 as int)»
    {
        truncate_fast(&mut self.events, mark.0 as usize);
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::reopen
    pub fn reopen(&mut self) «requires old(self).wf(), !old(self).predicate_mode ==> old(self).events@.len() > 0 && old(self).events@.last() == Event::End
        ensures final(self).only_events(old(self)), final(self).events@ == if old(self).predicate_mode { old(self).events@ } else { old(self).events@.drop_last() }»
    {
        if !self.predicate_mode {
            match self.events.pop() {
                Some(Event::End) => {}
                _ => vpanic()
            }
        }
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::replace
    pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) «requires old(self).wf(), ty_ok(old(self).env(), ty_idx),
            old(self).predicate_mode || mark.0 < old(self).events@.len() && old(self).events@[mark.0 as int] is Start
        ensures final(self).only_events(old(self)),
            final(self).events@ == if old(self).predicate_mode { old(self).events@ } else {
                old(self).events@.update(mark.0 as int, Event::Start { ty: old(self).env().inp().ty(ty_idx), forward_parent: old(self).events@[mark.0 as int]->Start_forward_parent }) }»
    {
        if self.predicate_mode {
            return;
        }
        let ty = self[ty_idx];
        match self.events[mark.0 as usize] {
            Event::Start { ty: ref mut prev, .. } => *prev = ty,
            _ => vpanic()
        }
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::forward_parent
    pub fn forward_parent(&mut self, child: Mark, parent: Mark «, Ghost(base): Ghost<int>») «requires old(self).wf(),
            old(self).predicate_mode || 0 <= base <= child.0 < parent.0 <= old(self).events@.len() && wrappable(old(self).events@.subrange(base, parent.0 as int), child.0 - base)
        ensures final(self).only_events(old(self)),
            final(self).events@ =~= if old(self).predicate_mode { old(self).events@ } else {
                old(self).events@.take(base) + wrap(old(self).events@.subrange(base, parent.0 as int)) + old(self).events@.skip(parent.0 as int) }»
    {
        if self.predicate_mode {
            return;
        }
        «let ghost es = self.events@;
        let ghost ev = es.subrange(base, parent.0 as int);
        proof { lemma_top(ev, 0); }»
        let mut idx = child.0;
        loop
        «invariant_except_break self.events@ == es
         invariant
            !self.predicate_mode, self.only_events(old(self)), es == old(self).events@, 0 <= base <= idx < parent.0 <= es.len(), es.len() <= u32::MAX,
            ev == es.subrange(base, parent.0 as int), wrappable(ev, idx - base),
         ensures self.events@ =~= es.take(base) + wrap(ev) + es.skip(parent.0 as int)
         decreases parent.0 - idx»
        {
            «proof { assert(tgt_ok(ev, idx - base)); assert(ev[idx - base] == es[idx as int]); lemma_top(ev, 0); lemma_top(ev, idx - base); }»
            match self.events[idx as usize] {
                Event::Start { forward_parent: Some(fwd), .. } => idx += fwd,
                Event::Start { ref mut forward_parent, .. } => {
                    *forward_parent = Some(parent.0 - idx);
                    «proof {
                        assert(tgt(ev, idx - base).is_none());
                        assert(self.events@ =~= es.take(base) + wrap(ev) + es.skip(parent.0 as int));
                    }»
                    break;
                }
                _ => vpanic(),
            }
        }
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::cut_suffix
    pub fn cut_suffix(&self, tokens: Pos, suffix: Pos) -> «(r:» Pos «) ensures r == Pos(tokens.0, suffix.0)» {
        Pos(tokens.0, suffix.0)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::bump
    pub fn bump(&mut self, pos: Pos) -> «(r:» Option<(NodeType, Pos)> «)
        requires old(self).wf(), old(self).pos_ok(pos), repl_ok(old(self).env(), old(self).replacement)
        ensures
            tried(*old(self), *final(self), any_step(old(self).env().inp(), old(self).st(), pos.0 as int, pos.1 as int), pos, match r { Some((_, q)) => Some(q), None => None }),
            r matches Some((ty, _)) ==> ty == old(self).env().inp().toks[pos.0 as int].ty,
            r is None ==> final(self).events@ == old(self).events@»
    {
        if pos.is_empty() {
            return None;
        }
        let ty = self[pos].ty;
        self.token(ty, 1);
        «proof {
            let g = self.env().inp();
            lemma_contiguous_one(g, pos.0 as int);
            lemma_good_token(g, ty, 1, pos.0 as int);
        }»
        Some((ty, pos.next()))
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::bump_by_text
    pub fn bump_by_text(&mut self, tokens: Pos, text: &Str, ty_idx: NodeTypeRef) -> «(r:» Option<Pos> «)
        requires old(self).wf(), old(self).pos_ok(tokens), repl_ok(old(self).env(), old(self).replacement), ty_ok(old(self).env(), ty_idx), text@.len() < 65536, contextual_ok(old(self).env(), text@), is_contextual(old(self).env().inp(), text@)
        ensures
            tried(*old(self), *final(self), contextual_step(old(self).env().inp(), ty_idx, text@, old(self).st(), tokens.0 as int, tokens.1 as int), tokens, r)»
    {
        if tokens.is_empty() {
            return None;
        }
        «let ghost g = self.env().inp();
        proof { assert(nw_ok(self.env(), tokens.0 as int)); }»
        let start = self.non_ws_indexes[tokens.0 as usize].0;
        let current_text = self.text.slice(TextSuffix::from(start));
        «proof { assert(current_text@ =~= g.text.skip(g.toks[tokens.0 as int].start)); }»

        if !current_text.starts_with(text) {
            return None;
        }

        let mut leftover = tu(text.len() as u32);
        let mut n_tokens = 0;
        let mut pos = tokens;
        while leftover > tu(0)
        «invariant
            g == self.env().inp(), self.wf(), self.pos_ok(pos), self.pos_ok(tokens), tokens.0 <= pos.0, pos.1 == tokens.1, n_tokens == pos.0 - tokens.0,
            n_tokens + leftover.0 <= text@.len() < 65536,
            g.by_len(tokens.0 as int, tokens.1 as int, text@.len() as int) == (match g.by_len(pos.0 as int, pos.1 as int, leftover.0 as int) { Some(k) => Some(k + n_tokens), None => None::<int> }),
            *self == *old(self), repl_ok(self.env(), self.replacement),
         decreases leftover.0»
        {
            if pos.is_empty() {
                return None;
            }
            «proof { assert(nw_ok(self.env(), pos.0 as int)); }»
            let cur_len = self[pos].len;
            if leftover < cur_len {
                return None;
            }
            leftover -= cur_len;
            n_tokens += 1;
            pos = pos.next();
        }

        «proof {
            assert(g.by_len(pos.0 as int, pos.1 as int, leftover.0 as int) == Some(0int));
            assert(g.by_text(tokens.0 as int, tokens.1 as int, text@) == Some(n_tokens as int));
            if ctx_clean(g) { assert(no_err(g, tokens.0 as int, g.by_text(tokens.0 as int, tokens.1 as int, text@)->0 as nat)); }
            lemma_good_token(g, g.ty(ty_idx), n_tokens, tokens.0 as int);
        }»
        let ty = self[ty_idx];
        self.token(ty, n_tokens);

        Some(pos)
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::start_cached
    pub fn start_cached(&mut self, expr: ExprRef) -> «(r:» Mark «) requires old(self).wf()
        ensures final(self).only_events(old(self)), r.0 == old(self).events@.len(),
            final(self).events@ == old(self).events@ + old(self).emitted(seq![Event::Cached { key: expr.0, n_events: 0, prev: None, replacement: None }])»
    {
        let mark = self.mark();
        self.event(Event::Cached { key: expr.0, n_events: 0, prev: None, replacement: None });
        mark
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::finish_cached
    pub fn finish_cached(&mut self, mark: Mark) «requires old(self).wf(), old(self).predicate_mode || mark.0 < old(self).events@.len() && old(self).events@[mark.0 as int] is Cached
        ensures final(self).only_events(old(self)),
            final(self).events@ == if old(self).predicate_mode { old(self).events@ } else { old(self).events@.update(mark.0 as int, Event::Cached {
                key: old(self).events@[mark.0 as int]->key, n_events: (old(self).events@.len() - mark.0 - 1) as u32, prev: old(self).prev, replacement: old(self).replacement }) }»
    {
        if !self.predicate_mode {
            let len = self.events.len() as u32 - (mark.0 + 1);
            match self.events[mark.0 as usize] {
                Event::Cached { ref mut n_events, ref mut prev, ref mut replacement, .. } => {
                    *n_events = len;
                    *prev = self.prev;
                    *replacement = self.replacement;
                }
                _ => vpanic(),
            }
        }
    }
//@end
//@fn fall/parse/src/syn_engine/parser.rs Parser::get_from_cache
    pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> «(r:» Option<Pos> «)
        requires old(self).wf(), old(self).pos_ok(pos), st_ok(old(self).env(), old(self).st()), old(self).prev is None, old(self).replacement is None
        ensures
            r is Some ==> tried(*old(self), *final(self), (old(self).env().q.s)(Item::E(expr), old(self).st(), pos.0 as int, pos.1 as int), pos, r),
            r is None ==> *final(self) == *old(self)»
    {
        if pos.is_empty() {
            return None;
        }
        if let Some((ref cache, events)) = self.cache {
            let text_pos = self.non_ws_indexes[pos.0 as usize].0;
            if let Some(r__0) = cache.get(&(text_pos, expr)) {
                let start_event = (*r__0).0;
                let n_events = (*r__0).1;
                let n_tokens = (*r__0).2;
                if n_tokens > pos.1 - pos.0 {
                    return None;
                }
                «proof {
                    let v = self.env();
                    let c = self.cache->0; assert(hit_ok(v, c.0, events@, (text_pos, expr)));
                    assert(self.st().at(None, None) == self.st());
                    let o = (v.q.s)(Item::E(expr), self.st().at(None, None), pos.0 as int, pos.1 as int);
                }»
                if let Event::Cached { prev, replacement, .. } = events[start_event as usize - 1] {
                    self.prev = prev;
                    self.replacement = replacement;
                }
                if !self.predicate_mode {
                    extend_events(&mut self.events, &events[start_event as usize..(start_event + n_events) as usize]);
                }
                return Some(Pos(pos.0 + n_tokens, pos.1));
            }
        }

        return None;
    }
//@end
}

} // verus!
