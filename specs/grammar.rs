// What grammar expressions mean: fall/parse/src/lib.rs
//@owner C12 C13 C14
verus! {

//@item fall/parse/src/lib.rs struct:Context
«#[derive(Copy, Clone)]»
pub struct Context(pub u32);
//@end
//@item fall/parse/src/lib.rs struct:Arg
«#[derive(Copy, Clone)]»
pub struct Arg(pub u32);
//@end
//@item fall/parse/src/lib.rs struct:ExprRef
«#[derive(Copy, Clone, PartialEq, Eq, Structural)]»
pub struct ExprRef(pub u32);
//@end
//@rewrite1 String ==> Str
//@item fall/parse/src/lib.rs enum:Expr
pub enum Expr {
    Pub {
        ty: NodeTypeRef,
        body: ExprRef,
        replaceable: bool,
    },
    PubReplace {
        ty: NodeTypeRef,
        body: ExprRef,
    },
    Or(Vec<ExprRef>),
    And(Vec<ExprRef>, Option<usize>),
    Token(NodeTypeRef),
    ContextualToken(NodeTypeRef, Str),
    Rep(ExprRef),
    WithSkip(ExprRef, ExprRef),
    Opt(ExprRef),
    Not(ExprRef),
    Eof,
    Any,
    Layer(ExprRef, ExprRef),
    Pratt(Box<PrattTable>),
    Enter(Context, ExprRef),
    Exit(Context, ExprRef),
    IsIn(Context),
    Call(ExprRef, Vec<(Arg, ExprRef)>),
    Var(Arg),
    PrevIs(Vec<NodeTypeRef>),
    Inject(ExprRef, ExprRef),
    Cached(ExprRef),
}
//@end
//@item fall/parse/src/lib.rs struct:PrattTable
pub struct PrattTable {
    pub atoms: Vec<ExprRef>,
    pub prefixes: Vec<Prefix>,
    pub infixes: Vec<Infix>,
}
//@end
//@item fall/parse/src/lib.rs struct:Prefix
pub struct Prefix {
    pub ty: NodeTypeRef,
    pub op: ExprRef,
    pub priority: u32,
}
//@end
//@item fall/parse/src/lib.rs struct:Infix
pub struct Infix {
    pub ty: NodeTypeRef,
    pub op: ExprRef,
    pub priority: u32,
    pub has_rhs: bool,
}
//@end
//@item fall/parse/src/syn_engine/mod.rs struct:Grammar
pub struct Grammar<'g> {
    pub node_types: &'g [NodeType],
    pub rules: &'g [Expr],
    pub start_rule: ExprRef,
}
//@end

// ---- input and results -----------------------------------------------------------------------
/// a token which is not a space: `raw` is its number among all tokens
pub struct Tk { pub ty: NodeType, pub len: int, pub start: int, pub raw: int }
pub struct Inp { pub rules: Seq<Expr>, pub tys: Seq<NodeType>, pub toks: Seq<Tk>, pub text: Seq<u8>, pub q: Q }
/// the meaning of the grammar, and the rule parameters that must be bound to use an expression
pub struct Q { pub s: Sem, pub need: spec_fn(ExprRef) -> Set<int> }
/// what is in force when an expression is tried
pub struct St { pub ctx: Seq<bool>, pub args: Seq<Option<ExprRef>>, pub prev: Option<NodeType>, pub repl: Option<NodeTypeRef> }
/// the position after the expression if it succeeds, what it produced, the last node, the replacement
pub struct Out { pub res: Option<int>, pub ev: Seq<Event>, pub prev: Option<NodeType>, pub repl: Option<NodeTypeRef> }
/// what can be tried
pub enum Item {
    E(ExprRef),
    /// alternatives from the i-th on
    Or(Seq<ExprRef>, int),
    /// parts from the i-th on; commit point
    And(Seq<ExprRef>, int, int),
    Rep(ExprRef),
    /// skip-recovery; skipping has started at the position
    Skip(ExprRef, ExprRef, int),
    /// an expression with operators of the priority or higher
    Go(PrattTable, int),
    /// prefix operators from the i-th on
    Prefix(PrattTable, int),
    /// infix operators from the i-th on, after an operand that has produced the events
    Infix(PrattTable, int, int, Seq<Event>),
}
/// the outcome of trying an item at a position, with the end of the layer; None: does not terminate
pub type Sem = spec_fn(Item, St, int, int) -> Option<Out>;

impl St {
    /// after trying something
    pub open spec fn then(self, o: Out) -> St { St { prev: o.prev, repl: o.repl, ..self } }
    pub open spec fn at(self, prev: Option<NodeType>, repl: Option<NodeTypeRef>) -> St { St { prev, repl, ..self } }
}
pub open spec fn fail(st: St) -> Option<Out> { Some(Out { res: None, ev: Seq::empty(), prev: st.prev, repl: st.repl }) }
pub open spec fn done(st: St, b: int, ev: Seq<Event>) -> Option<Out> { Some(Out { res: Some(b), ev, prev: st.prev, repl: st.repl }) }
pub open spec fn open_ev(ty: NodeType) -> Event { Event::Start { ty, forward_parent: None } }
pub open spec fn node(ty: NodeType, ev: Seq<Event>) -> Seq<Event> { seq![open_ev(ty)] + ev + seq![Event::End] }
pub open spec fn err_node() -> Seq<Event> { seq![open_ev(ERROR), Event::End] }
pub open spec fn opt_or<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a.is_some() { a } else { b } }

/// the start of the node around the one that starts at `i`, outermost
pub open spec fn top(ev: Seq<Event>, i: int) -> int
    decreases ev.len() - i
{
    match tgt(ev, i) { Some(t) => if 0 <= i < t < ev.len() { top(ev, t) } else { i }, None => i }
}
/// the node that starts first gets wrapped into one that starts after `ev`
pub open spec fn wrap(ev: Seq<Event>) -> Seq<Event> {
    let c = top(ev, 0);
    ev.update(c, Event::Start { ty: ev[c]->Start_ty, forward_parent: Some((ev.len() - c) as u32) })
}

impl Inp {
    pub open spec fn ty(&self, r: NodeTypeRef) -> NodeType { self.tys[r.0 as int] }
    pub open spec fn token(&self, a: int) -> Event { Event::Token { ty: self.toks[a].ty, n_raw_tokens: 1 } }
    pub open spec fn tokens(&self, a: int, b: int) -> Seq<Event> { Seq::new((b - a) as nat, |i: int| self.token(a + i)) }
    /// the tokens from `a` to `b` are not part of anything
    pub open spec fn skipped(&self, a: int, b: int) -> Seq<Event> { if a == b { Seq::empty() } else { node(ERROR, self.tokens(a, b)) } }
    /// number of tokens from `a` on that are `n` long together
    pub open spec fn by_len(&self, a: int, e: int, n: int) -> Option<int>
        decreases e - a
    {
        if n <= 0 { Some(0int) } else if a >= e || n < self.toks[a].len { None } else {
            match self.by_len(a + 1, e, n - self.toks[a].len) { Some(k) => Some(k + 1), None => None }
        }
    }
    pub open spec fn by_text(&self, a: int, e: int, text: Seq<u8>) -> Option<int> {
        if a < e && occurs(self.text.skip(self.toks[a].start), text, 0) { self.by_len(a, e, text.len() as int) } else { None }
    }
}

// ---- expressions -----------------------------------------------------------------------------
pub open spec fn pub_step(s: Sem, g: Inp, ty: NodeTypeRef, body: ExprRef, replaceable: bool, st: St, a: int, e: int) -> Option<Out> {
    let st1 = if replaceable { st.at(st.prev, None) } else { st };
    match s(Item::E(body), st1, a, e) {
        None => None,
        Some(o) => match o.res {
            None => fail(st1.then(o)),
            Some(b) => Some(Out {
                res: Some(b),
                ev: node(if replaceable && o.repl.is_some() { g.ty(o.repl->0) } else { g.ty(ty) }, o.ev),
                prev: Some(g.ty(ty)),
                repl: if replaceable { None } else { o.repl },
            }),
        },
    }
}
pub open spec fn pub_replace_step(s: Sem, g: Inp, ty: NodeTypeRef, body: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::E(body), st, a, e) {
        None => None,
        Some(o) => match o.res { None => fail(st.then(o)), Some(b) => Some(Out { repl: Some(ty), ..o }) },
    }
}
/// the first alternative that succeeds
pub open spec fn or_step(s: Sem, g: Inp, parts: Seq<ExprRef>, i: int, st: St, a: int, e: int) -> Option<Out> {
    if i >= parts.len() { fail(st) } else {
        match s(Item::E(parts[i]), st, a, e) {
            None => None,
            Some(o) => match o.res { None => s(Item::Or(parts, i + 1), st.then(o), a, e), Some(b) => Some(o) },
        }
    }
}
/// all parts, or at least `commit` of them
pub open spec fn and_step(s: Sem, g: Inp, parts: Seq<ExprRef>, commit: int, i: int, st: St, a: int, e: int) -> Option<Out> {
    if i >= parts.len() {
        if i < commit { fail(st) } else { done(st, a, Seq::empty()) }
    } else {
        match s(Item::E(parts[i]), st, a, e) {
            None => None,
            Some(o) => match o.res {
                None => if i < commit { fail(st.then(o)) } else { done(st.then(o), a, err_node()) },
                Some(b) => match s(Item::And(parts, commit, i + 1), st.then(o), b, e) {
                    None => None,
                    Some(p) => match p.res { None => fail(st.then(p)), Some(c) => Some(Out { ev: o.ev + p.ev, ..p }) },
                },
            },
        }
    }
}
pub open spec fn token_step(g: Inp, ty: NodeTypeRef, st: St, a: int, e: int) -> Option<Out> {
    if a < e && g.toks[a].ty == g.ty(ty) { done(st, a + 1, seq![g.token(a)]) } else { fail(st) }
}
pub open spec fn any_step(g: Inp, st: St, a: int, e: int) -> Option<Out> {
    if a < e { done(st, a + 1, seq![g.token(a)]) } else { fail(st) }
}
pub open spec fn contextual_step(g: Inp, ty: NodeTypeRef, text: Seq<u8>, st: St, a: int, e: int) -> Option<Out> {
    match g.by_text(a, e, text) {
        Some(k) => done(st, a + k, seq![Event::Token { ty: g.ty(ty), n_raw_tokens: k as u16 }]),
        None => fail(st),
    }
}
pub open spec fn opt_step(s: Sem, body: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::E(body), st, a, e) {
        None => None,
        Some(o) => match o.res { None => done(st.then(o), a, Seq::empty()), Some(b) => Some(o) },
    }
}
/// a predicate: nothing is produced
pub open spec fn not_step(s: Sem, x: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::E(x), st, a, e) {
        None => None,
        Some(o) => match o.res { None => done(st.then(o), a, Seq::empty()), Some(b) => fail(st.then(o)) },
    }
}
pub open spec fn eof_step(st: St, a: int, e: int) -> Option<Out> { if a == e { done(st, a, Seq::empty()) } else { fail(st) } }
/// `x` sees only the tokens that `l` takes; what it leaves is an error
pub open spec fn layer_step(s: Sem, g: Inp, l: ExprRef, x: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::E(l), st, a, e) {
        None => None,
        Some(h) => match h.res {
            None => fail(st.then(h)),
            Some(b) => match s(Item::E(x), st.then(h), a, b) {
                None => None,
                Some(o) => match o.res {
                    None => done(st.then(o), b, g.skipped(a, b)),
                    Some(c) => done(st.then(o), b, o.ev + g.skipped(c, b)),
                },
            },
        },
    }
}
pub open spec fn rep_step(s: Sem, body: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::E(body), st, a, e) {
        None => None,
        Some(o) => match o.res {
            None => done(st.then(o), a, Seq::empty()),
            Some(b) => match s(Item::Rep(body), st.then(o), b, e) {
                None => None,
                Some(p) => Some(Out { ev: o.ev + p.ev, ..p }),
            },
        },
    }
}
/// skips tokens until `first` holds and `body` succeeds; what was skipped is one error
pub open spec fn skip_step(s: Sem, g: Inp, first: ExprRef, body: ExprRef, a0: int, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::E(first), st, a, e) {
        None => None,
        Some(f) => if f.res.is_some() {
            match s(Item::E(body), st.then(f), a, e) {
                None => None,
                Some(o) => match o.res {
                    Some(b) => Some(Out { ev: g.skipped(a0, a) + o.ev, ..o }),
                    None => skip_on(s, first, body, a0, st.then(o), a, e),
                },
            }
        } else {
            skip_on(s, first, body, a0, st.then(f), a, e)
        },
    }
}
pub open spec fn skip_on(s: Sem, first: ExprRef, body: ExprRef, a0: int, st: St, a: int, e: int) -> Option<Out> {
    if a == e { fail(st) } else { s(Item::Skip(first, body, a0), st, a + 1, e) }
}
pub open spec fn enter_step(s: Sem, ctx: int, on: bool, x: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    s(Item::E(x), St { ctx: st.ctx.update(ctx, on), ..st }, a, e)
}
pub open spec fn is_in_step(ctx: int, st: St, a: int, e: int) -> Option<Out> { if st.ctx[ctx] { done(st, a, Seq::empty()) } else { fail(st) } }
/// an argument which is a parameter of the caller is what the caller was given for it
pub open spec fn bind(g: Inp, old: Seq<Option<ExprRef>>, args: Seq<(Arg, ExprRef)>) -> Seq<Option<ExprRef>>
    decreases args.len()
{
    if args.len() == 0 { old } else {
        let (i, x) = args.last();
        bind(g, old, args.drop_last()).update(i.0 as int, match g.rules[x.0 as int] { Expr::Var(j) => old[j.0 as int], _ => Some(x) })
    }
}
pub open spec fn call_step(s: Sem, g: Inp, body: ExprRef, args: Seq<(Arg, ExprRef)>, st: St, a: int, e: int) -> Option<Out> {
    s(Item::E(body), St { args: bind(g, st.args, args), ..st }, a, e)
}
pub open spec fn var_step(s: Sem, i: int, st: St, a: int, e: int) -> Option<Out> { s(Item::E(st.args[i]->0), st, a, e) }
pub open spec fn prev_is(g: Inp, ts: Seq<NodeTypeRef>, ty: NodeType) -> bool { exists|i: int| 0 <= i < ts.len() && g.ty(#[trigger] ts[i]) == ty }
pub open spec fn prev_is_step(g: Inp, ts: Seq<NodeTypeRef>, st: St, a: int, e: int) -> Option<Out> {
    if st.prev.is_some() && prev_is(g, ts, st.prev->0) { done(st, a, Seq::empty()) } else { fail(st) }
}
/// what `prefix` produced goes inside of the node that `body` produces
pub open spec fn inject_step(s: Sem, g: Inp, prefix: ExprRef, body: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::E(prefix), st, a, e) {
        None => None,
        Some(o) => match o.res {
            None => fail(st.then(o)),
            Some(b) => match s(Item::E(body), st.then(o), b, e) {
                None => None,
                Some(p) => match p.res {
                    None => fail(st.then(p)),
                    Some(c) => Some(Out { ev: (if b != a { wrap(o.ev) } else { o.ev }) + p.ev, ..p }),
                },
            },
        },
    }
}
/// the rule does not see what comes before it
pub open spec fn cached_step(s: Sem, body: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::E(body), st.at(None, None), a, e) {
        None => None,
        Some(o) => {
            let st1 = st.at(opt_or(o.prev, st.prev), opt_or(o.repl, st.repl));
            match o.res {
                None => fail(st1),
                Some(b) => done(st1, b, seq![Event::Cached { key: body.0, n_events: o.ev.len() as u32, prev: o.prev, replacement: o.repl }] + o.ev),
            }
        }
    }
}

// ---- operators -------------------------------------------------------------------------------
pub open spec fn go_step(s: Sem, g: Inp, t: PrattTable, min: int, st: St, a: int, e: int) -> Option<Out> {
    match operand(s, g, t, st, a, e) {
        None => None,
        Some(o) => match o.res {
            None => fail(st.then(o)),
            Some(b) => s(Item::Infix(t, min, 0, o.ev), st.then(o), b, e),
        },
    }
}
/// an atom, or a prefix operator with what it applies to
pub open spec fn operand(s: Sem, g: Inp, t: PrattTable, st: St, a: int, e: int) -> Option<Out> {
    match s(Item::Or(t.atoms@, 0), st, a, e) {
        None => None,
        Some(o) => match o.res { Some(b) => Some(o), None => s(Item::Prefix(t, 0), st.then(o), a, e) },
    }
}
/// the operand of a prefix operator has operators of its own or higher priority
pub open spec fn prefix_step(s: Sem, g: Inp, t: PrattTable, i: int, st: St, a: int, e: int) -> Option<Out> {
    if i >= t.prefixes@.len() { fail(st) } else {
        let op = t.prefixes@[i];
        match s(Item::E(op.op), st, a, e) {
            None => None,
            Some(o) => match o.res {
                None => s(Item::Prefix(t, i + 1), st.then(o), a, e),
                Some(b) => match s(Item::Go(t, op.priority as int), st.then(o), b, e) {
                    None => None,
                    Some(p) => match p.res {
                        None => s(Item::Prefix(t, i + 1), st.then(p), a, e),
                        Some(c) => Some(Out { res: Some(c), ev: node(g.ty(op.ty), o.ev + p.ev), prev: Some(g.ty(op.ty)), repl: p.repl }),
                    },
                },
            },
        }
    }
}
/// the right operand has operators of strictly higher priority; then the operators are tried again
pub open spec fn infix_step(s: Sem, g: Inp, t: PrattTable, min: int, i: int, acc: Seq<Event>, st: St, a: int, e: int) -> Option<Out> {
    if i >= t.infixes@.len() { done(st, a, acc) } else {
        let op = t.infixes@[i];
        if op.priority < min { s(Item::Infix(t, min, i + 1, acc), st, a, e) } else {
            match s(Item::E(op.op), st, a, e) {
                None => None,
                Some(o) => match o.res {
                    None => s(Item::Infix(t, min, i + 1, acc), st.then(o), a, e),
                    Some(b) => {
                        let st1 = st.then(o);
                        if op.has_rhs {
                            match s(Item::Go(t, op.priority + 1), st1, b, e) {
                                None => None,
                                Some(p) => {
                                    let (c, rhs) = match p.res { Some(c) => (c, p.ev), None => (b, err_node()) };
                                    s(Item::Infix(t, min, 0, wrap(acc) + node(g.ty(op.ty), o.ev + rhs)), st1.then(p).at(Some(g.ty(op.ty)), p.repl), c, e)
                                }
                            }
                        } else {
                            s(Item::Infix(t, min, 0, wrap(acc) + node(g.ty(op.ty), o.ev)), st1.at(Some(g.ty(op.ty)), o.repl), b, e)
                        }
                    }
                },
            }
        }
    }
}

pub open spec fn expr_step(s: Sem, g: Inp, x: ExprRef, st: St, a: int, e: int) -> Option<Out> {
    match g.rules[x.0 as int] {
        Expr::Pub { ty, body, replaceable } => pub_step(s, g, ty, body, replaceable, st, a, e),
        Expr::PubReplace { ty, body } => pub_replace_step(s, g, ty, body, st, a, e),
        Expr::Or(parts) => s(Item::Or(parts@, 0), st, a, e),
        Expr::And(parts, commit) => s(Item::And(parts@, match commit { Some(c) => c as int, None => parts@.len() as int }, 0), st, a, e),
        Expr::Token(ty) => token_step(g, ty, st, a, e),
        Expr::ContextualToken(ty, text) => contextual_step(g, ty, text@, st, a, e),
        Expr::Rep(body) => s(Item::Rep(body), st, a, e),
        Expr::WithSkip(first, body) => s(Item::Skip(first, body, a), st, a, e),
        Expr::Opt(body) => opt_step(s, body, st, a, e),
        Expr::Not(x) => not_step(s, x, st, a, e),
        Expr::Eof => eof_step(st, a, e),
        Expr::Any => any_step(g, st, a, e),
        Expr::Layer(l, x) => layer_step(s, g, l, x, st, a, e),
        Expr::Pratt(table) => s(Item::Go(*table, 0), st, a, e),
        Expr::Enter(ctx, x) => enter_step(s, ctx.0 as int, true, x, st, a, e),
        Expr::Exit(ctx, x) => enter_step(s, ctx.0 as int, false, x, st, a, e),
        Expr::IsIn(ctx) => is_in_step(ctx.0 as int, st, a, e),
        Expr::Call(body, args) => call_step(s, g, body, args@, st, a, e),
        Expr::Var(i) => var_step(s, i.0 as int, st, a, e),
        Expr::PrevIs(ts) => prev_is_step(g, ts@, st, a, e),
        Expr::Inject(prefix, body) => inject_step(s, g, prefix, body, st, a, e),
        Expr::Cached(body) => cached_step(s, body, st, a, e),
    }
}
pub open spec fn step(s: Sem, g: Inp, x: Item, st: St, a: int, e: int) -> Option<Out> {
    match x {
        Item::E(x) => expr_step(s, g, x, st, a, e),
        Item::Or(parts, i) => or_step(s, g, parts, i, st, a, e),
        Item::And(parts, commit, i) => and_step(s, g, parts, commit, i, st, a, e),
        Item::Rep(body) => rep_step(s, body, st, a, e),
        Item::Skip(first, body, a0) => skip_step(s, g, first, body, a0, st, a, e),
        Item::Go(t, min) => go_step(s, g, t, min, st, a, e),
        Item::Prefix(t, i) => prefix_step(s, g, t, i, st, a, e),
        Item::Infix(t, min, i, acc) => infix_step(s, g, t, min, i, acc, st, a, e),
    }
}
/// `s` gives the expressions of the grammar their meaning: it solves these equations
#[verifier::opaque]
pub open spec fn solves(s: Sem, g: Inp) -> bool {
    forall|x: Item, st: St, a: int, e: int| #[trigger] s(x, st, a, e) == step(s, g, x, st, a, e)
}
pub proof fn lemma_solves(s: Sem, g: Inp, x: Item, st: St, a: int, e: int)
    requires solves(s, g)
    ensures s(x, st, a, e) == step(s, g, x, st, a, e)
{
    reveal(solves);
}

} // verus!
