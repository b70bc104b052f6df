// Traversals and visitors: fall/tree/src/search.rs (traversal, ast), visitor.rs, util.rs, ast.rs
//@owner C16
//@rewrite PhantomData < * const T > ==> PhantomData < T >
//@rewrite PhantomData < * const A > ==> PhantomData < A >
//@rewrite FnMut ( T , & mut V :: Context ) ==> CtxCall < T , V :: Context >
//@rewrite FnMut ( Node < 'f > , & mut V :: Context ) ==> CtxCall < Node < 'f > , V :: Context >
//@rewrite f ( node , ctx ) } ==> f . call ( node , ctx ) }
//@rewrite f ( a , ctx ) } ==> f . call ( a , ctx ) }
//@rewrite self . nodes . contains ( & node . ty ( ) ) ==> slice_contains ( self . nodes , & node . ty ( ) )
verus! {
use std::marker::PhantomData;

// `FnMut` parameters: callbacks with any deterministic effect on their own state and their context
/// `FnMut(Node)`
pub trait NodeCall<'f>: Sized {
    spec fn eff(self, node: Node<'f>) -> Self;
    fn call(&mut self, node: Node<'f>)
        requires node.wf()
        ensures *final(self) == old(self).eff(node);
}
/// `FnMut(A, &mut C)`
pub trait CtxCall<A, C>: Sized {
    spec fn eff(self, a: A, ctx: C) -> (Self, C);
    fn call(&mut self, a: A, ctx: &mut C)
        ensures (*final(self), *final(ctx)) == old(self).eff(a, *old(ctx));
}
#[verifier::external_body]
pub fn slice_contains(s: &[NodeType], x: &NodeType) -> (r: bool) ensures r == s@.contains(*x) { s.contains(x) }

/// what a callback is after it was called for the nodes `s`, in order
pub open spec fn run<'f, F: NodeCall<'f>>(f: F, n: Node<'f>, s: Seq<int>) -> F
    decreases s.len()
{
    if s.len() == 0 { f } else { run(f, n, s.drop_last()).eff(at(n, s.last())) }
}
pub proof fn lemma_run<'f, F: NodeCall<'f>>(f: F, n: Node<'f>, a: Seq<int>, b: Seq<int>)
    ensures run(f, n, a + b) == run(run(f, n, a), n, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_run(f, n, a, b.drop_last());
    }
}
/// the nodes of the subtree of `i`, parents before their children
pub open spec fn pre_order(ns: Seq<ND>, i: int) -> Seq<int>
    decreases ns.len() - i, 1int, 0int
{
    seq![i] + pre_kids(ns, i, ns[i].kids.len() as int)
}
pub open spec fn pre_kids(ns: Seq<ND>, i: int, n: int) -> Seq<int>
    decreases ns.len() - i, 0int, n
{
    if n <= 0 || !(0 <= i < ns[i].kids[n - 1] < ns.len()) { Seq::empty() } else { pre_kids(ns, i, n - 1) + pre_order(ns, ns[i].kids[n - 1]) }
}
/// C16: both orders visit exactly the nodes below `i`, each once
pub proof fn lemma_orders_complete(ns: Seq<ND>, i: int, x: int)
    requires tree_wf(ns), 0 <= i < ns.len(), 0 <= x < ns.len()
    ensures count(post_order(ns, i), x) == if anc(ns, i, x) { 1int } else { 0 }, count(pre_order(ns, i), x) == if anc(ns, i, x) { 1int } else { 0 }
    decreases ns.len() - i, 1int, 0int
{
    let n = ns[i].kids.len() as int;
    lemma_kids_complete(ns, i, n, x);
    lemma_count_push(post_kids(ns, i, n), i, x);
    lemma_count_add(seq![i], pre_kids(ns, i, n), x);
    assert(seq![i] =~= Seq::<int>::empty().push(i));
    lemma_count_push(Seq::<int>::empty(), i, x);
    if anc(ns, i, x) && x != i { let k = lemma_below_kid(ns, i, x); }
    assert(anc(ns, i, i));
    if exists|k: int| in_kids(ns, i, k) && anc(ns, ns[i].kids[k], x) {
        let k = choose|k: int| in_kids(ns, i, k) && anc(ns, ns[i].kids[k], x);
        lemma_kid_anc(ns, i, k);
        lemma_anc_trans(ns, i, ns[i].kids[k], x);
        assert(child_ok(ns, i, k));
        lemma_anc_range(ns, ns[i].kids[k], x);
    }
}
pub open spec fn count(s: Seq<int>, x: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { count(s.drop_last(), x) + if s.last() == x { 1int } else { 0 } }
}
pub proof fn lemma_count_push(s: Seq<int>, i: int, x: int)
    ensures count(s.push(i), x) == count(s, x) + if i == x { 1int } else { 0 }
{
    assert(s.push(i).drop_last() =~= s);
}
pub proof fn lemma_count_add(a: Seq<int>, b: Seq<int>, x: int)
    ensures count(a + b, x) == count(a, x) + count(b, x)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_count_add(a, b.drop_last(), x);
    }
}
pub proof fn lemma_kids_complete(ns: Seq<ND>, i: int, n: int, x: int)
    requires tree_wf(ns), 0 <= i < ns.len(), 0 <= x < ns.len(), 0 <= n <= ns[i].kids.len()
    ensures
        count(post_kids(ns, i, n), x) == if exists|k: int| in_kids(ns, i, k) && k < n && anc(ns, ns[i].kids[k], x) { 1int } else { 0 },
        count(pre_kids(ns, i, n), x) == if exists|k: int| in_kids(ns, i, k) && k < n && anc(ns, ns[i].kids[k], x) { 1int } else { 0 },
    decreases ns.len() - i, 0int, n
{
    if n > 0 {
        let c = ns[i].kids[n - 1];
        assert(in_kids(ns, i, n - 1) && child_ok(ns, i, n - 1));
        lemma_kids_complete(ns, i, n - 1, x);
        lemma_orders_complete(ns, c, x);
        lemma_count_add(post_kids(ns, i, n - 1), post_order(ns, c), x);
        lemma_count_add(pre_kids(ns, i, n - 1), pre_order(ns, c), x);
        if exists|k: int| in_kids(ns, i, k) && k < n - 1 && anc(ns, ns[i].kids[k], x) {
            let k = choose|k: int| in_kids(ns, i, k) && k < n - 1 && anc(ns, ns[i].kids[k], x);
            assert(in_kids(ns, i, k) && k < n);
            if anc(ns, c, x) { lemma_one_kid(ns, i, k, n - 1, x); }
        }
    }
}
/// no node is below two siblings
pub proof fn lemma_one_kid(ns: Seq<ND>, i: int, k: int, l: int, x: int)
    requires tree_wf(ns), in_kids(ns, i, k), in_kids(ns, i, l), k < l, 0 <= x < ns.len(), anc(ns, ns[i].kids[k], x), anc(ns, ns[i].kids[l], x)
    ensures false
    decreases x
{
    let a = ns[i].kids[k];
    let b = ns[i].kids[l];
    assert(a < b);
    assert(child_ok(ns, i, k) && child_ok(ns, i, l));
    if x == a { lemma_anc_range(ns, b, x); }
    else if x == b {
        assert(anc(ns, a, i));
        lemma_anc_range(ns, a, i);
    } else {
        lemma_one_kid(ns, i, k, l, ns[x].parent->0);
    }
}

//@rewrite1 FnMut ( Node < 'f > ) ==> NodeCall < 'f >
//@rewrite1 f ( node ) ; ==> f . call ( node ) ;
//@fn fall/tree/src/search.rs traversal::bottom_up/go
pub fn bottom_up__go<'f, F: NodeCall<'f>>(node: Node<'f>, f: &mut F)
«requires node.wf()
 ensures *final(f) == run(*old(f), node, post_order(node.t(), node.i()))
 decreases node.t().len() - node.i()»
{
    «let ghost f0 = *f; let ghost ns = node.t(); let ghost i = node.i();»
    {
        let mut it__0 = node.children();
        «proof { lemma_kids_below(ns, i); }»
        loop
        «invariant_except_break it__0.pos() <= node.d().kids.len(), *f == run(f0, node, post_kids(ns, i, it__0.pos()))
         invariant it__0.of(node), node.wf(), ns == node.t(), i == node.i(), forall|k: int| 0 <= k < node.d().kids.len() ==> node.i() < #[trigger] node.d().kids[k] < node.t().len(),
         ensures *f == run(f0, node, post_kids(ns, i, node.d().kids.len() as int))
         decreases node.d().kids.len() - it__0.pos()»
        {
            «let ghost k = it__0.pos(); let ghost g = *f;»
            if let Some(x__0) = it__0.next() {
                let child = x__0;
                «proof { assert(child.i() == ns[i].kids[k]); lemma_run(f0, node, post_kids(ns, i, k), post_order(ns, ns[i].kids[k])); lemma_run_same(g, child, node, post_order(ns, child.i())); }»
                bottom_up__go(child, f)
            } else {
                break;
            }
        }
    }
    «proof { assert(post_order(ns, i).drop_last() =~= post_kids(ns, i, ns[i].kids.len() as int)); assert(at(node, i) == node); }»
    f.call(node);
}
//@end

pub proof fn lemma_run_same<'f, F: NodeCall<'f>>(f: F, a: Node<'f>, b: Node<'f>, s: Seq<int>)
    requires a.0.file == b.0.file
    ensures run(f, a, s) == run(f, b, s)
    decreases s.len()
{
    if s.len() > 0 { lemma_run_same(f, a, b, s.drop_last()); }
}

//@rewrite1 FnMut ( Node < 'f > ) ==> NodeCall < 'f >
//@rewrite1 f : F ) { let mut f = f ; ==> f : & mut F ) {
//@rewrite1 node , & mut f ) ==> node , f )
//@fn fall/tree/src/search.rs traversal::bottom_up
pub fn bottom_up<'f, F: NodeCall<'f>>(node: Node<'f>, f: &mut F)
«requires node.wf() ensures *final(f) == run(*old(f), node, post_order(node.t(), node.i()))» {
    bottom_up__go(node, f);
}
//@end

//@rewrite1 < F : FnMut ( Node ) > ( node : Node , ==> < 'f , F : NodeCall < 'f > > ( node : Node < 'f > ,
//@rewrite1 f ( node ) ; ==> f . call ( node ) ;
//@fn fall/tree/src/util.rs walk_tree/go
pub fn walk_tree__go<'f, F: NodeCall<'f>>(node: Node<'f>, f: &mut F)
«requires node.wf()
 ensures *final(f) == run(*old(f), node, pre_order(node.t(), node.i()))
 decreases node.t().len() - node.i()»
{
    «let ghost f0 = *f; let ghost ns = node.t(); let ghost i = node.i();
    proof { assert(at(node, i) == node); assert(seq![i].drop_last() =~= Seq::<int>::empty()); assert(run(f0, node, seq![i].drop_last()) == f0); assert(run(f0, node, seq![i]) == f0.eff(node)); }»
    f.call(node);
    {
        let mut it__0 = node.children();
        «proof { lemma_kids_below(ns, i); assert(seq![i] + pre_kids(ns, i, 0) =~= seq![i]); }»
        loop
        «invariant_except_break it__0.pos() <= node.d().kids.len(), *f == run(f0, node, seq![i] + pre_kids(ns, i, it__0.pos()))
         invariant it__0.of(node), node.wf(), ns == node.t(), i == node.i(), forall|k: int| 0 <= k < node.d().kids.len() ==> node.i() < #[trigger] node.d().kids[k] < node.t().len(),
         ensures *f == run(f0, node, seq![i] + pre_kids(ns, i, node.d().kids.len() as int))
         decreases node.d().kids.len() - it__0.pos()»
        {
            «let ghost k = it__0.pos(); let ghost g = *f;»
            if let Some(x__0) = it__0.next() {
                let child = x__0;
                «proof {
                    assert(child.i() == ns[i].kids[k]);
                    lemma_run(f0, node, seq![i] + pre_kids(ns, i, k), pre_order(ns, ns[i].kids[k]));
                    assert((seq![i] + pre_kids(ns, i, k)) + pre_order(ns, ns[i].kids[k]) =~= seq![i] + pre_kids(ns, i, k + 1));
                    lemma_run_same(g, child, node, pre_order(ns, child.i()));
                }»
                walk_tree__go(child, f)
            } else {
                break;
            }
        }
    }
}
//@end

//@rewrite1 < F : FnMut ( Node ) > ( node : Node , ==> < 'f , F : NodeCall < 'f > > ( node : Node < 'f > ,
//@rewrite1 f : F ) { let mut f = f ; ==> f : & mut F ) {
//@rewrite1 node , & mut f ) ==> node , f )
//@fn fall/tree/src/util.rs walk_tree
pub fn walk_tree<'f, F: NodeCall<'f>>(node: Node<'f>, f: &mut F)
«requires node.wf() ensures *final(f) == run(*old(f), node, pre_order(node.t(), node.i()))» {
    walk_tree__go(node, f);
}
//@end

// ---- visitors -----------------------------------------------------------------------------
//@item fall/tree/src/visitor.rs struct:VisitorBuilder
pub struct VisitorBuilder<'f, C, V> {
    pub ctx: C,
    pub visitor: V,
    pub n: PhantomData<Node<'f>>,
}
//@end

/// fall/tree/src/visitor.rs Visit, with the effect as a specification
pub trait Visit<'f>: Sized {
    type Context;
    spec fn veff(self, node: Node<'f>, ctx: Self::Context) -> (Self, Self::Context);
    fn visit(&mut self, node: Node<'f>, ctx: &mut Self::Context)
        requires node.wf()
        ensures (*final(self), *final(ctx)) == old(self).veff(node, *old(ctx));
}
/// fall/tree/src/ast.rs AstNode
pub trait AstNode<'f>: Copy {
    spec fn wrap_spec(node: Node<'f>) -> Option<Self>;
    spec fn node_spec(self) -> Node<'f>;
    fn wrap(node: Node<'f>) -> (r: Option<Self>) requires node.wf() ensures r == Self::wrap_spec(node);
    fn node(self) -> (r: Node<'f>) ensures r == self.node_spec();
}

//@item fall/tree/src/visitor.rs struct:EmptyVisitor
pub struct EmptyVisitor<C>(pub PhantomData<C>);
//@end
impl<'f, C> Visit<'f> for EmptyVisitor<C> {
    type Context = C;
    open spec fn veff(self, node: Node<'f>, ctx: C) -> (Self, C) { (self, ctx) }
//@fn fall/tree/src/visitor.rs <EmptyVisitor as Visit>::visit
    fn visit(&mut self, _node: Node<'f>, _ctx: &mut C) {}
//@end
}

//@item fall/tree/src/visitor.rs struct:AstVisitor
pub struct AstVisitor<V, F, T> {
    pub visitor: V,
    pub f: F,
    pub p: PhantomData<T>
}
//@end
impl<'f, V, F, T> Visit<'f> for AstVisitor<V, F, T>
    where V: Visit<'f>, T: AstNode<'f>, F: CtxCall<T, V::Context>,
{
    type Context = V::Context;
    /// first what was registered before, then this callback, if the node is a `T`
    open spec fn veff(self, node: Node<'f>, ctx: V::Context) -> (Self, V::Context) {
        let (v, c) = self.visitor.veff(node, ctx);
        match T::wrap_spec(node) {
            Some(a) => { let (f, c) = self.f.eff(a, c); (AstVisitor { visitor: v, f: f, p: self.p }, c) }
            None => (AstVisitor { visitor: v, f: self.f, p: self.p }, c),
        }
    }
//@fn fall/tree/src/visitor.rs <AstVisitor as Visit>::visit
    fn visit(&mut self, node: Node<'f>, ctx: &mut Self::Context) {
        self.visitor.visit(node, ctx);
        if let Some(a) = T::wrap(node) {
            let f = &mut self.f;
            f.call(a, ctx)
        }
    }
//@end
}

//@item fall/tree/src/visitor.rs struct:TyVisitor
pub struct TyVisitor<'n, V, F> {
    pub visitor: V,
    pub f: F,
    pub nodes: &'n [NodeType]
}
//@end
impl<'n, 'f, V, F> Visit<'f> for TyVisitor<'n, V, F>
    where V: Visit<'f>, F: CtxCall<Node<'f>, V::Context>,
{
    type Context = V::Context;
    open spec fn veff(self, node: Node<'f>, ctx: V::Context) -> (Self, V::Context) {
        let (v, c) = self.visitor.veff(node, ctx);
        if self.nodes@.contains(node.d().ty) {
            let (f, c) = self.f.eff(node, c);
            (TyVisitor { visitor: v, f: f, nodes: self.nodes }, c)
        } else {
            (TyVisitor { visitor: v, f: self.f, nodes: self.nodes }, c)
        }
    }
//@fn fall/tree/src/visitor.rs <TyVisitor as Visit>::visit
    fn visit(&mut self, node: Node<'f>, ctx: &mut Self::Context) {
        self.visitor.visit(node, ctx);
        if slice_contains(self.nodes, &node.ty()) {
            let f = &mut self.f;
            f.call(node, ctx)
        }
    }
//@end
}

impl<'f, C, V> VisitorBuilder<'f, C, V> {
//@fn fall/tree/src/visitor.rs VisitorBuilder::new
    pub fn new(ctx: C, visitor: V) -> «(r:» VisitorBuilder<'f, C, V> «) ensures r.ctx == ctx, r.visitor == visitor» {
        VisitorBuilder { ctx, visitor, n: PhantomData}
    }
//@end
//@fn fall/tree/src/visitor.rs VisitorBuilder::visit
    pub fn visit<T, F>(self, f: F) -> «(r:» VisitorBuilder<'f, C, AstVisitor<V, F, T>> «)»
        where V: Visit<'f>,
              F: CtxCall<T, V::Context>, «ensures r.ctx == self.ctx, r.visitor.visitor == self.visitor, r.visitor.f == f»
    {
        VisitorBuilder {
            ctx: self.ctx,
            visitor: AstVisitor { visitor: self.visitor, f, p: PhantomData },
            n: PhantomData,
        }
    }
//@end
//@fn fall/tree/src/visitor.rs VisitorBuilder::visit_nodes
    pub fn visit_nodes<'n, F>(self, nodes: &'n [NodeType], f: F) -> «(r:» VisitorBuilder<'f, C, TyVisitor<'n, V, F>> «)»
        where V: Visit<'f>,
              F: CtxCall<Node<'f>, V::Context>, «ensures r.ctx == self.ctx, r.visitor.visitor == self.visitor, r.visitor.f == f, r.visitor.nodes == nodes»
    {
        VisitorBuilder {
            ctx: self.ctx,
            visitor: TyVisitor { visitor: self.visitor, f, nodes },
            n: PhantomData,
        }
    }
//@end
//@fn fall/tree/src/visitor.rs VisitorBuilder::do_visit
    pub fn do_visit(&mut self, node: Node<'f>) where V: Visit<'f, Context=C>
    «requires node.wf() ensures *final(self) == old(self).eff(node)» {
        self.visitor.visit(node, &mut self.ctx)
    }
//@end
}
// the closure `|node| visitor.do_visit(node)`
impl<'f, C, V: Visit<'f, Context = C>> NodeCall<'f> for VisitorBuilder<'f, C, V> {
    open spec fn eff(self, node: Node<'f>) -> Self {
        let (v, c) = self.visitor.veff(node, self.ctx);
        VisitorBuilder { ctx: c, visitor: v, n: self.n }
    }
    fn call(&mut self, node: Node<'f>) { self.do_visit(node) }
}

//@fn fall/tree/src/visitor.rs visitor
pub fn visitor<'f, C>(ctx: C) -> «(r:» VisitorBuilder<'f, C, EmptyVisitor<C>> «) ensures r.ctx == ctx» {
    VisitorBuilder::new(ctx, EmptyVisitor(PhantomData))
}
//@end

//@rewrite1 traversal :: bottom_up ( node , | node | visitor . do_visit ( node ) ) ==> bottom_up ( node , & mut visitor )
//@fn fall/tree/src/visitor.rs process_subtree_bottom_up
pub fn process_subtree_bottom_up<'f, V, C>(node: Node<'f>, visitor: VisitorBuilder<'f, C, V>) -> «(r:» C «)»
    where V: Visit<'f, Context=C> «requires node.wf() ensures r == run(visitor, node, post_order(node.t(), node.i())).ctx»
{
    let mut visitor = visitor;
    bottom_up(node, &mut visitor);
    return visitor.ctx;
}
//@end

//@fn fall/tree/src/visitor.rs process_node
pub fn process_node<'f, V, C>(node: Node<'f>, visitor: VisitorBuilder<'f, C, V>) -> «(r:» C «)»
    where V: Visit<'f, Context=C> «requires node.wf() ensures r == visitor.eff(node).ctx»
{
    let mut visitor = visitor;
    visitor.do_visit(node);
    visitor.ctx
}
//@end

/// the closure `|node, nodes| nodes.push(node)`
pub struct PushCall;
impl<A> CtxCall<A, Vec<A>> for PushCall {
    uninterp spec fn eff(self, a: A, ctx: Vec<A>) -> (Self, Vec<A>);
    #[verifier::external_body]
    fn call(&mut self, a: A, ctx: &mut Vec<A>) { ctx.push(a) }
}
pub broadcast axiom fn push_call_eff<A>(p: PushCall, a: A, ctx: Vec<A>)
    ensures #[trigger] <PushCall as CtxCall<A, Vec<A>>>::eff(p, a, ctx).1@ == ctx@.push(a);

//@rewrite1 | node , nodes | nodes . push ( node ) ==> PushCall
//@fn fall/tree/src/search.rs descendants_of_type
pub fn descendants_of_type(node: Node, ty: NodeType) -> «(r:» Vec<Node> «)
    requires node.wf()
    ensures nix(r@) == of_type(node.t(), post_order(node.t(), node.i()), ty), all_in(r@, node)» {
    «broadcast use push_call_eff;
    proof { lemma_post_order_range(node.t(), node.i()); lemma_collect_types(node, ty, post_order(node.t(), node.i())); }»
    process_subtree_bottom_up(
        node,
        visitor(Vec::new())
            .visit_nodes(&[ty], PushCall)
    )
}
//@end
pub open spec fn ids_ok(ns: Seq<ND>, s: Seq<int>) -> bool { forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < ns.len() }
pub proof fn lemma_post_order_range(ns: Seq<ND>, i: int)
    requires tree_wf(ns), 0 <= i < ns.len()
    ensures ids_ok(ns, post_order(ns, i))
    decreases ns.len() - i, 1int, 0int
{
    let a = post_kids(ns, i, ns[i].kids.len() as int);
    lemma_post_kids_range(ns, i, ns[i].kids.len() as int);
    assert(post_order(ns, i) == a.push(i));
    assert forall|k: int| 0 <= k < a.push(i).len() implies 0 <= #[trigger] a.push(i)[k] < ns.len() by { if k < a.len() { assert(a.push(i)[k] == a[k]); } }
}
pub proof fn lemma_post_kids_range(ns: Seq<ND>, i: int, n: int)
    requires tree_wf(ns), 0 <= i < ns.len(), 0 <= n <= ns[i].kids.len()
    ensures ids_ok(ns, post_kids(ns, i, n))
    decreases ns.len() - i, 0int, n
{
    if n > 0 {
        lemma_kids_below(ns, i);
        lemma_post_kids_range(ns, i, n - 1);
        lemma_post_order_range(ns, ns[i].kids[n - 1]);
        let a = post_kids(ns, i, n - 1);
        let b = post_order(ns, ns[i].kids[n - 1]);
        assert(post_kids(ns, i, n) == a + b);
        assert forall|k: int| 0 <= k < (a + b).len() implies 0 <= #[trigger] (a + b)[k] < ns.len() by { if k < a.len() { assert((a + b)[k] == a[k]); } else { assert((a + b)[k] == b[k - a.len()]); } }
    } else {
        assert(post_kids(ns, i, n).len() == 0);
    }
}
pub proof fn lemma_collect_types<'f>(node: Node<'f>, ty: NodeType, s: Seq<int>)
    requires node.wf(), ids_ok(node.t(), s)
    ensures forall|v: VisitorBuilder<'f, Vec<Node<'f>>, TyVisitor<EmptyVisitor<Vec<Node<'f>>>, PushCall>>|
        v.ctx@.len() == 0 && one_ty(v.visitor.nodes@, ty) ==> collected(node, ty, s, #[trigger] run(v, node, s))
    decreases s.len()
{
    broadcast use push_call_eff;
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|k: int| 0 <= k < r.len() implies 0 <= #[trigger] r[k] < node.t().len() by { assert(r[k] == s[k]); }
        lemma_collect_types(node, ty, r);
        let x = at(node, s.last());
        assert(0 <= s[s.len() - 1] < node.t().len());
        assert(x.i() == s.last());
        assert(x.wf());
        assert(x.d() == node.t()[s.last()]);
        assert forall|q: Seq<NodeType>| one_ty(q, ty) implies (#[trigger] q.contains(x.d().ty) <==> x.d().ty == ty) by { assert(q[0] == ty); }
        assert forall|v: VisitorBuilder<'f, Vec<Node<'f>>, TyVisitor<EmptyVisitor<Vec<Node<'f>>>, PushCall>>|
            v.ctx@.len() == 0 && one_ty(v.visitor.nodes@, ty) implies collected(node, ty, s, #[trigger] run(v, node, s)) by {
            let w = run(v, node, r);
            assert(collected(node, ty, r, w));
            if x.d().ty == ty {
                assert(w.eff(x).ctx@ == w.ctx@.push(x));
                assert(nix(w.ctx@.push(x)) =~= nix(w.ctx@).push(s.last()));
                assert(of_type(node.t(), s, ty) == of_type(node.t(), r, ty).push(s.last()));
            } else {
                assert(of_type(node.t(), s, ty) == of_type(node.t(), r, ty));
                assert(w.eff(x).ctx == w.ctx);
            }
        }
    } else {
        assert forall|v: VisitorBuilder<'f, Vec<Node<'f>>, TyVisitor<EmptyVisitor<Vec<Node<'f>>>, PushCall>>|
            v.ctx@.len() == 0 && one_ty(v.visitor.nodes@, ty) implies collected(node, ty, s, #[trigger] run(v, node, s)) by {
            assert(nix(v.ctx@) =~= Seq::<int>::empty());
            assert(of_type(node.t(), s, ty) =~= Seq::<int>::empty());
        }
    }
}
pub open spec fn one_ty(s: Seq<NodeType>, ty: NodeType) -> bool { s.len() == 1 && s[0] == ty }
pub open spec fn collected<'f, 'n>(node: Node<'f>, ty: NodeType, s: Seq<int>, v: VisitorBuilder<'f, Vec<Node<'f>>, TyVisitor<'n, EmptyVisitor<Vec<Node<'f>>>, PushCall>>) -> bool {
    nix(v.ctx@) == of_type(node.t(), s, ty) && all_in(v.ctx@, node) && one_ty(v.visitor.nodes@, ty)
}

// ---- typed nodes --------------------------------------------------------------------------
/// those of the nodes `s` that are a `T`, in order
pub open spec fn wrapped<'f, T: AstNode<'f>>(n: Node<'f>, s: Seq<int>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let r = wrapped::<T>(n, s.drop_last());
        match T::wrap_spec(at(n, s.last())) { Some(a) => r.push(a), None => r }
    }
}

//@rewrite1 | node , acc | acc . push ( node ) ==> PushCall
//@rewrite1 fn descendants_of_type < ==> fn ast__descendants_of_type <
//@fn fall/tree/src/search.rs ast::descendants_of_type
pub fn ast__descendants_of_type<'f, N: AstNode<'f>>(node: Node<'f>) -> «(r:» Vec<N> «)
    requires node.wf()
    ensures r@ == wrapped::<N>(node, post_order(node.t(), node.i()))» {
    «broadcast use push_call_eff;
    proof { lemma_collect_ast::<N>(node, post_order(node.t(), node.i())); }»
    process_subtree_bottom_up(
        node,
        visitor(Vec::new())
            .visit::<N, _>(PushCall)
    )
}
//@end
pub proof fn lemma_collect_ast<'f, N: AstNode<'f>>(node: Node<'f>, s: Seq<int>)
    ensures forall|v: VisitorBuilder<'f, Vec<N>, AstVisitor<EmptyVisitor<Vec<N>>, PushCall, N>>|
        v.ctx@.len() == 0 ==> (#[trigger] run(v, node, s)).ctx@ == wrapped::<N>(node, s)
    decreases s.len()
{
    broadcast use push_call_eff;
    if s.len() > 0 {
        lemma_collect_ast::<N>(node, s.drop_last());
        assert forall|v: VisitorBuilder<'f, Vec<N>, AstVisitor<EmptyVisitor<Vec<N>>, PushCall, N>>| v.ctx@.len() == 0 implies (#[trigger] run(v, node, s)).ctx@ == wrapped::<N>(node, s) by {
            let w = run(v, node, s.drop_last());
            assert(w.ctx@ == wrapped::<N>(node, s.drop_last()));
        }
    } else {
        assert forall|v: VisitorBuilder<'f, Vec<N>, AstVisitor<EmptyVisitor<Vec<N>>, PushCall, N>>| v.ctx@.len() == 0 implies (#[trigger] run(v, node, s)).ctx@ == wrapped::<N>(node, s) by {
            assert(v.ctx@ =~= Seq::<N>::empty());
        }
    }
}

//@item fall/tree/src/ast.rs struct:AstChildren
pub struct AstChildren<'f, A: AstNode<'f>> {
    pub inner: NodeChildren<'f>,
    pub phantom: PhantomData<A>,
}
//@end

/// the `A`s among the nodes `s[k..]` of a file, in order
pub open spec fn typed<'f, A: AstNode<'f>>(f: &'f File, s: Seq<int>, k: int) -> Seq<A>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { Seq::empty() } else {
        let r = typed::<A>(f, s, k + 1);
        match A::wrap_spec(Node(NodeImpl { id: NodeId(s[k] as u32), file: f })) { Some(a) => seq![a] + r, None => r }
    }
}
/// the children of a node that are an `A`, in order
pub open spec fn kids_of<'f, A: AstNode<'f>>(n: Node<'f>) -> Seq<A> { typed::<A>(n.0.file, n.d().kids, 0) }

impl<'f, A: AstNode<'f>> AstChildren<'f, A> {
    pub open spec fn wf(self) -> bool {
        self.inner.file.wf() && self.inner.inner.wf() && forall|k: int| 0 <= k < self.inner.inner.s@.len() ==> (#[trigger] self.inner.inner.s@[k]).0 < self.inner.file.imp.nodes@.len()
    }
    /// what is still to come
    pub open spec fn rest(self) -> Seq<A> { typed::<A>(self.inner.file, ids(self.inner.inner.s@), self.inner.pos()) }
    /// how many children are left to look at
    pub open spec fn left(self) -> int { self.inner.inner.s@.len() - self.inner.pos() }
//@fn fall/tree/src/ast.rs AstChildren::new
    pub fn new(children: NodeChildren<'f>) -> «(r:» Self «) ensures r.inner == children» {
        AstChildren {
            inner: children,
            phantom: PhantomData,
        }
    }
//@end
//@rewrite1 fn next ==> pub fn next
//@rewrite1 Self :: Item ==> A
//@fn fall/tree/src/ast.rs <AstChildren as Iterator>::next
    pub fn next(&mut self) -> «(r:» Option<A> «)
        requires old(self).wf()
        // the next child that is an `A`; nothing only when no child is left
        ensures final(self).wf(), final(self).inner.file == old(self).inner.file, 
            match r {
                Some(a) => old(self).rest() == seq![a] + final(self).rest() && final(self).left() < old(self).left()
                    && exists|n: Node<'f>| n.wf() && n.0.file == old(self).inner.file && #[trigger] A::wrap_spec(n) == Some(a),
                None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            }» {
        «let ghost o = *self;»
        loop
        «invariant_except_break self.wf(), self.inner.file == o.inner.file, self.rest() == o.rest(), self.left() <= o.left()
         invariant o == *old(self)
         ensures self.wf(), self.inner.file == o.inner.file, self.rest() == o.rest(), self.rest().len() == 0
         decreases self.left()»
        {
            «let ghost k = self.inner.pos(); let ghost s = self.inner.inner.s@;»
            if let Some(node) = self.inner.next() {
                «proof { assert(ids(s)[k] == s[k].0); assert(node.0.id == s[k] && node.wf()); assert(node == Node(NodeImpl { id: NodeId(ids(s)[k] as u32), file: o.inner.file })); }»
                if let Some(a) = A::wrap(node) {
                    return Some(a);
                }
            } else {
                break;
            }
        }
        return None;
    }
//@end
}

//@rewrite1 fn children_of_type < ==> fn ast__children_of_type <
//@fn fall/tree/src/search.rs ast::children_of_type
pub fn ast__children_of_type<'f, N: AstNode<'f>>(node: Node<'f>) -> «(r:» AstChildren<N> «)
    requires node.wf() ensures r.wf(), r.rest() == kids_of::<N>(node)» {
    «proof { lemma_kids_wf(node); }»
    AstChildren::new(node.children())
}
//@end
pub proof fn lemma_kids_wf(n: Node)
    requires n.wf()
    ensures forall|c: NodeChildren| #[trigger] c.of(n) ==> forall|k: int| 0 <= k < c.inner.s@.len() ==> (#[trigger] c.inner.s@[k]).0 < n.0.file.imp.nodes@.len()
{
    lemma_kids_below(n.t(), n.i());
    assert forall|c: NodeChildren| #[trigger] c.of(n) implies forall|k: int| 0 <= k < c.inner.s@.len() ==> (#[trigger] c.inner.s@[k]).0 < n.0.file.imp.nodes@.len() by {
        assert forall|k: int| 0 <= k < c.inner.s@.len() implies (#[trigger] c.inner.s@[k]).0 < n.0.file.imp.nodes@.len() by {
            assert(ids(c.inner.s@)[k] == c.inner.s@[k].0);
            assert(ids(c.inner.s@)[k] == n.d().kids[k]);
        }
    }
}

//@fn fall/tree/src/search.rs ast::ancestor ## C09
pub fn ancestor<'f, T: AstNode<'f>>(node: Node<'f>) -> «(r:» Option<T> «)
    requires node.wf()
    // the nearest that is a `T`, starting with the node itself
    ensures r == nearest::<T>(node, node.i())» {
    {
        let mut r__0 «: Option<T>» = None;
        let mut it__0 = ancestors(node);
        loop
        «invariant_except_break r__0.is_none(), it__0.wf(), it__0.0.is_some() ==> it__0.0->0.in_tree_of(node) && nearest::<T>(node, it__0.0->0.i()) == nearest::<T>(node, node.i()),
            it__0.0.is_none() ==> nearest::<T>(node, node.i()).is_none()
         invariant node.wf()
         ensures r__0 == nearest::<T>(node, node.i())
         decreases if it__0.0.is_some() { it__0.0->0.i() + 1 } else { 0 }»
        {
            if let Some(x__0) = it__0.next() {
                «proof { assert(x__0 == at(node, x__0.i())); lemma_parent(node.t(), x__0.i()); }»
                if let Some(y__1) = T::wrap(x__0) {
                    r__0 = Some(y__1);
                    break;
                }
            } else {
                break;
            }
        }
        r__0
    }
}
//@end
pub open spec fn nearest<'f, T: AstNode<'f>>(n: Node<'f>, i: int) -> Option<T>
    decreases i
{
    match T::wrap_spec(at(n, i)) {
        Some(a) => Some(a),
        None => if n.t()[i].parent.is_some() && 0 <= n.t()[i].parent->0 < i { nearest::<T>(n, n.t()[i].parent->0) } else { None },
    }
}


//@fn fall/tree/src/search.rs ast::ancestor_exn ## C09
pub fn ancestor_exn<'f, T: AstNode<'f>>(node: Node<'f>) -> «(r:» T «)
    requires node.wf(), nearest::<T>(node, node.i()).is_some()
    ensures Some(r) == nearest::<T>(node, node.i())» {
    ancestor(node).unwrap()
}
//@end

//@fn fall/tree/src/search.rs ast::node_at_offset ## C10
pub fn node_at_offset<'f, T: AstNode<'f>>(node: Node<'f>, offset: TextUnit) -> «(r:» Option<T> «)
    requires node.wf(), node.d().start <= offset.0 <= node.d().end
    // the nearest `T` above a leaf that touches the offset; the left leaf goes first
    ensures exists|l: LeafAtOffset| #[trigger] leaf_answer(node, offset.0 as int, l) && r == match l {
        LeafAtOffset::None => None::<T>,
        LeafAtOffset::Single(n) => nearest::<T>(n, n.i()),
        LeafAtOffset::Between(a, b) => if nearest::<T>(a, a.i()).is_some() { nearest::<T>(a, a.i()) } else { nearest::<T>(b, b.i()) },
    }» {
    match find_leaf_at_offset(node, offset) {
        LeafAtOffset::None => None,
        LeafAtOffset::Single(node) => ancestor(node),
        LeafAtOffset::Between(left, right) => match ancestor(left) {
            Some(v__0) => Some(v__0),
            None => { ancestor(right) }
        },
    }
}
//@end

} // verus!
