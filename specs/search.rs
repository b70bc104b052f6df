// Navigation and queries: fall/tree/src/search.rs
//@owner C09
verus! {

// ---- ancestry -----------------------------------------------------------------------------
/// `a` is `i` or above it
pub open spec fn anc(ns: Seq<ND>, a: int, i: int) -> bool
    decreases i
{
    a == i || (ns[i].parent.is_some() && 0 <= ns[i].parent->0 < i && anc(ns, a, ns[i].parent->0))
}
/// `i` and the nodes above it, nearest first
pub open spec fn chain(ns: Seq<ND>, i: int) -> Seq<int>
    decreases i
{
    if ns[i].parent.is_some() && 0 <= ns[i].parent->0 < i { seq![i] + chain(ns, ns[i].parent->0) } else { seq![i] }
}
pub proof fn lemma_chain(ns: Seq<ND>, i: int, a: int)
    requires tree_wf(ns), 0 <= i < ns.len()
    ensures chain(ns, i).contains(a) <==> anc(ns, a, i), chain(ns, i).last() == 0, chain(ns, i).len() > 0
    decreases i
{
    lemma_parent(ns, i);
    if i > 0 {
        let p = ns[i].parent->0;
        lemma_chain(ns, p, a);
        let c = seq![i] + chain(ns, p);
        if chain(ns, p).contains(a) { let x = choose|x: int| 0 <= x < chain(ns, p).len() && chain(ns, p)[x] == a; assert(c[x + 1] == a); }
        if c.contains(a) { let x = choose|x: int| 0 <= x < c.len() && c[x] == a; if x > 0 { assert(chain(ns, p)[x - 1] == a); } }
        assert(c[0] == i);
    } else {
        assert(seq![i][0] == i);
    }
}
pub proof fn lemma_anc_trans(ns: Seq<ND>, a: int, b: int, c: int)
    requires anc(ns, a, b), anc(ns, b, c)
    ensures anc(ns, a, c)
    decreases c
{
    if b != c { lemma_anc_trans(ns, a, b, ns[c].parent->0); }
}
pub proof fn lemma_anc_range(ns: Seq<ND>, a: int, i: int)
    requires tree_wf(ns), 0 <= i < ns.len(), anc(ns, a, i)
    ensures 0 <= a <= i, ns[a].start <= ns[i].start <= ns[i].end <= ns[a].end
    decreases i
{
    assert(span_ok(ns, i));
    if a != i {
        lemma_kid_of_parent(ns, i);
        lemma_anc_range(ns, a, ns[i].parent->0);
    }
}
/// `k` with `i` being the `k`-th child of its parent
pub open spec fn kid_no(ns: Seq<ND>, i: int) -> int {
    choose|k: int| in_kids(ns, ns[i].parent->0, k) && ns[ns[i].parent->0].kids[k] == i
}
pub proof fn lemma_kid_of_parent(ns: Seq<ND>, i: int)
    requires tree_wf(ns), 0 < i < ns.len()
    ensures ({ let p = ns[i].parent->0; let k = kid_no(ns, i);
        &&& ns[i].parent == Some(p) && 0 <= p < i && in_kids(ns, p, k) && ns[p].kids[k] == i
        &&& forall|l: int| 0 <= l < ns[p].kids.len() && ns[p].kids[l] == i ==> l == k
        &&& ns[p].start <= ns[i].start <= ns[i].end <= ns[p].end }),
{
    assert(parent_ok(ns, i));
    let p = ns[i].parent->0;
    let k = choose|k: int| 0 <= k < ns[p].kids.len() && ns[p].kids[k] == i;
    assert(in_kids(ns, p, k));
    let k = kid_no(ns, i);
    lemma_kid_inside(ns, p, k);
    assert forall|l: int| 0 <= l < ns[p].kids.len() && ns[p].kids[l] == i implies l == k by { assert(in_kids(ns, p, l)); }
}
pub proof fn lemma_kid_anc(ns: Seq<ND>, p: int, k: int)
    requires tree_wf(ns), in_kids(ns, p, k)
    ensures anc(ns, p, ns[p].kids[k]), 0 <= ns[p].kids[k] < ns.len(), kid_no(ns, ns[p].kids[k]) == k
{
    assert(child_ok(ns, p, k));
    assert(anc(ns, p, p));
    lemma_kid_of_parent(ns, ns[p].kids[k]);
}
/// a node below `a` is below one of its children
pub proof fn lemma_below_kid(ns: Seq<ND>, a: int, i: int) -> (k: int)
    requires tree_wf(ns), 0 <= i < ns.len(), anc(ns, a, i), a != i
    ensures in_kids(ns, a, k), anc(ns, ns[a].kids[k], i)
    decreases i
{
    lemma_kid_of_parent(ns, i);
    let p = ns[i].parent->0;
    if p == a { kid_no(ns, i) } else { lemma_below_kid(ns, a, p) }
}
pub open spec fn apart(ns: Seq<ND>, a: int, b: int) -> bool { ns[a].end <= ns[b].start || ns[b].end <= ns[a].start }
/// two nodes are nested or apart
pub proof fn lemma_nested_or_apart(ns: Seq<ND>, a: int, b: int)
    requires tree_wf(ns), 0 <= a < ns.len(), 0 <= b < ns.len()
    ensures anc(ns, a, b) || anc(ns, b, a) || apart(ns, a, b)
    decreases a + b, a
{
    if a > b { lemma_nested_or_apart(ns, b, a); }
    else if a < b {
        lemma_kid_of_parent(ns, b);
        let p = ns[b].parent->0;
        lemma_nested_or_apart(ns, a, p);
        if anc(ns, a, p) {
            assert(anc(ns, p, p));
            lemma_anc_trans(ns, a, p, b);
        } else if anc(ns, p, a) {
            let k = lemma_below_kid(ns, p, a);
            let c = ns[p].kids[k];
            lemma_kid_inside(ns, p, k);
            lemma_anc_range(ns, c, a);
            let l = kid_no(ns, b);
            if k < l { lemma_kids_ordered(ns, p, k, l); } else if l < k { lemma_kids_ordered(ns, p, l, k); }
        }
    }
}

/// a leaf with text
pub open spec fn leaf_at(ns: Seq<ND>, i: int) -> bool { ns[i].kids.len() == 0 && ns[i].start < ns[i].end }
pub open spec fn touches(ns: Seq<ND>, i: int, off: int) -> bool { ns[i].start <= off <= ns[i].end }
/// leaf of the subtree of `top` that touches `off`
pub open spec fn touching_leaf(ns: Seq<ND>, top: int, i: int, off: int) -> bool {
    0 <= i < ns.len() && anc(ns, top, i) && leaf_at(ns, i) && touches(ns, i, off)
}
/// two leaves that share text are the same
pub proof fn lemma_leaf_unique(ns: Seq<ND>, a: int, b: int)
    requires tree_wf(ns), 0 <= a < ns.len(), 0 <= b < ns.len(), leaf_at(ns, a), leaf_at(ns, b), !apart(ns, a, b)
    ensures a == b
{
    lemma_nested_or_apart(ns, a, b);
    if a != b {
        if anc(ns, a, b) { let k = lemma_below_kid(ns, a, b); } else { let k = lemma_below_kid(ns, b, a); }
    }
}

/// the first child of type `ty` from child `k` on
pub open spec fn kid_from<'f>(n: Node<'f>, ty: NodeType, k: int) -> Option<Node<'f>>
    decreases n.d().kids.len() - k
{
    if !(0 <= k < n.d().kids.len()) { None } else if n.t()[n.d().kids[k]].ty == ty { Some(at(n, n.d().kids[k])) } else { kid_from(n, ty, k + 1) }
}
pub open spec fn first_ty<'f>(n: Node<'f>, ty: NodeType) -> Option<Node<'f>> { kid_from(n, ty, 0) }

//@fn fall/tree/src/search.rs child_of_type ## C09 C16
pub fn child_of_type(node: Node, ty: NodeType) -> «(r:» Option<Node> «)
    requires node.wf()
    // the first child of the type
    ensures r == first_ty(node, ty), match r {
        Some(c) => c.in_tree_of(node) && exists|k: int| #[trigger] in_kids(node.t(), node.i(), k) && node.d().kids[k] == c.i() && c.d().ty == ty
            && forall|l: int| 0 <= l < k ==> node.t()[#[trigger] node.d().kids[l]].ty != ty,
        None => forall|l: int| 0 <= l < node.d().kids.len() ==> node.t()[#[trigger] node.d().kids[l]].ty != ty,
    }» {
    {
        let mut r__0 «: Option<Node>» = None;
        let mut it__0 = node.children();
        «proof { lemma_kids_below(node.t(), node.i()); }»
        loop
        «invariant_except_break r__0.is_none(), it__0.pos() <= node.d().kids.len(), first_ty(node, ty) == kid_from(node, ty, it__0.pos()),
            forall|l: int| 0 <= l < it__0.pos() ==> node.t()[#[trigger] node.d().kids[l]].ty != ty
         invariant it__0.of(node), node.wf(), forall|k: int| 0 <= k < node.d().kids.len() ==> node.i() < #[trigger] node.d().kids[k] < node.t().len(),
         ensures r__0 == first_ty(node, ty), match r__0 {
            Some(c) => c.in_tree_of(node) && exists|k: int| #[trigger] in_kids(node.t(), node.i(), k) && node.d().kids[k] == c.i() && c.d().ty == ty
                && forall|l: int| 0 <= l < k ==> node.t()[#[trigger] node.d().kids[l]].ty != ty,
            None => forall|l: int| 0 <= l < node.d().kids.len() ==> node.t()[#[trigger] node.d().kids[l]].ty != ty,
         }
         decreases node.d().kids.len() - it__0.pos()»
        {
            «let ghost k = it__0.pos();»
            if let Some(x__0) = it__0.next() {
                «assert(x__0 == at(node, node.d().kids[k])); assert(x__0.i() == node.d().kids[k]); assert(in_kids(node.t(), node.i(), k));»
                let n = &x__0;
                if n.ty() == ty {
                    r__0 = Some(x__0);
                    break;
                }
            } else {
                break;
            }
        }
        r__0
    }
}
//@end

//@rewrite1 Box < dyn Iterator < Item = Node < 'f > > + 'f > ==> VecIter < Node < 'f > >
//@rewrite1 Box :: new ==>
//@fn fall/tree/src/search.rs children_of_type ## C09 C16
pub fn children_of_type<'f>(node: Node<'f>, ty: NodeType) -> «(r:» VecIter<Node<'f>> «)
    requires node.wf()
    ensures r.i == 0, nix(r.v@) == of_type(node.t(), node.d().kids, ty), all_in(r.v@, node)» {
    ({
        let mut r__0 «: Vec<Node>» = Vec::new();
        let mut it__0 = node.children();
        «proof { lemma_kids_below(node.t(), node.i()); assert(node.d().kids.take(0) =~= Seq::<int>::empty()); }»
        loop
        «invariant_except_break it__0.pos() <= node.d().kids.len(), nix(r__0@) =~= of_type(node.t(), node.d().kids.take(it__0.pos()), ty), all_in(r__0@, node)
         invariant it__0.of(node), node.wf(), forall|k: int| 0 <= k < node.d().kids.len() ==> node.i() < #[trigger] node.d().kids[k] < node.t().len(),
         ensures nix(r__0@) =~= of_type(node.t(), node.d().kids, ty), all_in(r__0@, node)
         decreases node.d().kids.len() - it__0.pos()»
        {
            «let ghost k = it__0.pos(); let ghost s = r__0@;»
            if let Some(x__0) = it__0.next() {
                «proof {
                    assert(x__0.i() == node.d().kids[k]);
                    assert(node.d().kids.take(k + 1).drop_last() =~= node.d().kids.take(k));
                }»
                let n = &x__0;
                if n.ty() == ty {
                    r__0.push(x__0);
                    «proof { assert(nix(r__0@) =~= nix(s).push(x__0.i())); }»
                }
            } else {
                «proof { assert(node.d().kids.take(node.d().kids.len() as int) =~= node.d().kids); }»
                break;
            }
        }
        vec_iter(r__0)
    })
}
//@end

/// node numbers
pub open spec fn nix(s: Seq<Node>) -> Seq<int> { Seq::new(s.len(), |k: int| s[k].i()) }
pub open spec fn all_in(s: Seq<Node>, n: Node) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).in_tree_of(n) }
/// those of the nodes `s` that have type `ty`, in order
pub open spec fn of_type(ns: Seq<ND>, s: Seq<int>, ty: NodeType) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let r = of_type(ns, s.drop_last(), ty);
        if ns[s.last()].ty == ty { r.push(s.last()) } else { r }
    }
}
/// the nodes of the subtree of `i`, children left to right before their parent
pub open spec fn post_order(ns: Seq<ND>, i: int) -> Seq<int>
    decreases ns.len() - i, 1int, 0int
{
    post_kids(ns, i, ns[i].kids.len() as int).push(i)
}
pub open spec fn post_kids(ns: Seq<ND>, i: int, n: int) -> Seq<int>
    decreases ns.len() - i, 0int, n
{
    if n <= 0 || !(0 <= i < ns[i].kids[n - 1] < ns.len()) { Seq::empty() } else { post_kids(ns, i, n - 1) + post_order(ns, ns[i].kids[n - 1]) }
}

//@rewrite1 Box < dyn Iterator < Item = Node < 'f > > + 'f > ==> VecIter < Node < 'f > >
//@rewrite1 Box :: new ==>
//@iterfn subtree
//@fn fall/tree/src/search.rs subtree ## C16
pub fn subtree<'f>(node: Node<'f>) -> «(r:» VecIter<Node<'f>> «)
    requires node.wf()
    ensures r.i == 0, nix(r.v@) == post_order(node.t(), node.i()), all_in(r.v@, node)
    decreases node.t().len() - node.i()» {
    ({
        let mut r__0 «: Vec<Node>» = Vec::new();
        let mut it__0 = node.children();
        «proof { lemma_kids_below(node.t(), node.i()); }»
        loop
        «invariant_except_break it__0.pos() <= node.d().kids.len(), nix(r__0@) =~= post_kids(node.t(), node.i(), it__0.pos()), all_in(r__0@, node)
         invariant it__0.of(node), node.wf(), forall|k: int| 0 <= k < node.d().kids.len() ==> node.i() < #[trigger] node.d().kids[k] < node.t().len(),
         ensures nix(r__0@) =~= post_kids(node.t(), node.i(), node.d().kids.len() as int), all_in(r__0@, node)
         decreases node.d().kids.len() - it__0.pos()»
        {
            «let ghost k = it__0.pos(); let ghost s = r__0@;»
            if let Some(x__0) = it__0.next() {
                «assert(x__0.i() == node.d().kids[k]);»
                let mut it__1 = subtree(x__0);
                loop
                «invariant_except_break it__1.i <= it__1.v@.len(), r__0@ =~= s + it__1.v@.take(it__1.i as int)
                 invariant nix(it__1.v@) == post_order(node.t(), node.d().kids[k]), all_in(it__1.v@, node), all_in(s, node)
                 ensures r__0@ =~= s + it__1.v@
                 decreases it__1.v@.len() - it__1.i»
                {
                    if let Some(y__2) = it__1.next() {
                        r__0.push(y__2);
                    } else {
                        break;
                    }
                }
                «proof { assert(nix(r__0@) =~= nix(s) + nix(it__1.v@)); }»
            } else {
                break;
            }
        }
        «let ghost s = r__0@;»
        r__0.push(node);
        «proof { assert(nix(r__0@) =~= nix(s).push(node.i())); }»
        vec_iter(r__0)
    })
}
//@end

//@fn fall/tree/src/search.rs child_of_type_exn ## C09 C16
pub fn child_of_type_exn(node: Node, ty: NodeType) -> «(r:» Node «)
    requires node.wf(), exists|k: int| in_kids(node.t(), node.i(), k) && node.t()[#[trigger] node.d().kids[k]].ty == ty
    ensures Some(r) == first_ty(node, ty), r.in_tree_of(node), exists|k: int| #[trigger] in_kids(node.t(), node.i(), k) && node.d().kids[k] == r.i() && r.d().ty == ty
            && forall|l: int| 0 <= l < k ==> node.t()[#[trigger] node.d().kids[l]].ty != ty» {
    match child_of_type(node, ty) {
        Some(v__0) => v__0,
        None => { { vpanic() } }
    }
}
//@end

//@item fall/tree/src/search.rs struct:Ancestors
pub struct Ancestors<'f>(pub Option<Node<'f>>);
//@end

//@fn fall/tree/src/search.rs ancestors
pub fn ancestors(node: Node) -> «(r:» Ancestors «) requires node.wf() ensures r.0 == Some(node), r.wf()» {
    Ancestors(Some(node))
}
//@end

impl<'f> Ancestors<'f> {
    pub open spec fn wf(self) -> bool { self.0.is_some() ==> self.0->0.wf() }
    /// the numbers of the nodes that are still to come
    pub open spec fn rest(self) -> Seq<int> { match self.0 { Some(n) => chain(n.t(), n.i()), None => Seq::empty() } }
//@rewrite1 fn next ==> pub fn next
//@rewrite1 Self :: Item ==> Node < 'f >
//@fn fall/tree/src/search.rs <Ancestors as Iterator>::next
    pub fn next(&mut self) -> «(r:» Option<Node<'f>> «)
        requires old(self).wf()
        ensures final(self).wf(), r == old(self).0,
            r.is_some() ==> old(self).rest() == seq![r->0.i()] + final(self).rest(),
            match final(self).0 {
                Some(p) => r.is_some() && p.in_tree_of(r->0) && r->0.d().parent == Some(p.i()) && p.i() < r->0.i(),
                None => r.is_none() || r->0.i() == 0,
            }» {
        let current = self.0;
        self.0 = match current {
            Some(v__0) => {
                let n = v__0;
                n.parent()
            }
            None => None
        };
        «proof { if current.is_some() { lemma_parent(current->0.t(), current->0.i()); if self.0.is_none() { assert(seq![current->0.i()] + Seq::<int>::empty() =~= chain(current->0.t(), current->0.i())); } } }»
        current
    }
//@end
}


//@item fall/tree/src/search.rs enum:Direction
«#[derive(Clone, Copy)]»
pub enum Direction { Left, Right }
//@end

//@fn fall/tree/src/search.rs child_position
pub fn child_position(child: Node) -> «(r:» Option<(Node, usize)> «)
    requires child.wf()
    ensures match r {
        Some((p, k)) => p.in_tree_of(child) && child.d().parent == Some(p.i()) && in_kids(child.t(), p.i(), k as int) && p.d().kids[k as int] == child.i() && kid_no(child.t(), child.i()) == k && k < usize::MAX,
        None => child.i() == 0,
    }» {
    «proof { if child.i() > 0 { lemma_kid_of_parent(child.t(), child.i()); } }»
    match child.parent() {
        Some(v__2) => Some({
            let parent = v__2;
            {
                (parent, {
                    let mut r__0 «: Option<usize>» = None;
                    let mut it__0 = parent.children();
                    let mut n__1: usize = 0;
                    loop
                    «invariant_except_break r__0.is_none(), n__1 == it__0.pos(), n__1 <= kid_no(child.t(), child.i())
                     invariant it__0.of(parent), parent.wf(), parent.t() == child.t(), parent.0.file == child.0.file, child.wf(), child.i() > 0, child.d().parent == Some(parent.i()),
                        in_kids(child.t(), parent.i(), kid_no(child.t(), child.i())), parent.d().kids[kid_no(child.t(), child.i())] == child.i(),
                        forall|l: int| 0 <= l < parent.d().kids.len() && parent.d().kids[l] == child.i() ==> l == kid_no(child.t(), child.i())
                     ensures r__0 == Some(kid_no(child.t(), child.i()) as usize), kid_no(child.t(), child.i()) < usize::MAX
                     decreases parent.d().kids.len() - it__0.pos()»
                    {
                        if let Some(x__0) = it__0.next() {
                            let n = x__0;
                            if n == child {
                                r__0 = Some(n__1);
                                break;
                            }
                            n__1 = n__1 + 1;
                        } else {
                            break;
                        }
                    }
                    r__0
                }.unwrap())
            }
        }),
        None => None
    }
}
//@end

//@fn fall/tree/src/search.rs sibling
pub fn sibling(node: Node, dir: Direction) -> «(r:» Option<Node> «)
    requires node.wf()
    // the child of the same parent right before / after this one
    ensures match r {
        Some(s) => s.in_tree_of(node) && node.i() > 0 && s.d().parent == node.d().parent && kid_no(node.t(), s.i()) == kid_no(node.t(), node.i()) + if dir == Direction::Left { -1int } else { 1 },
        None => node.i() == 0 || (dir == Direction::Left && kid_no(node.t(), node.i()) == 0)
            || (dir == Direction::Right && kid_no(node.t(), node.i()) == node.t()[node.d().parent->0].kids.len() - 1),
    }» {
    let (parent, idx) = child_position(node)?;
    let idx = match dir {
        Direction::Left => idx.checked_sub(1)?,
        Direction::Right => idx + 1,
    };
    {
        let mut r__0 «: Option<Node>» = None;
        let mut it__0 = parent.children();
        let mut n__1: usize = 0;
        «proof { lemma_kids_below(node.t(), parent.i()); }»
        loop
        «invariant_except_break r__0.is_none(), n__1 == it__0.pos(), n__1 <= idx
         invariant it__0.of(parent), parent.wf(), parent.t() == node.t(), parent.0.file == node.0.file, idx <= parent.d().kids.len(),
            forall|k: int| 0 <= k < parent.d().kids.len() ==> parent.i() < #[trigger] parent.d().kids[k] < parent.t().len(),
         ensures match r__0 { Some(s) => s.in_tree_of(node) && idx < parent.d().kids.len() && s.i() == parent.d().kids[idx as int], None => idx == parent.d().kids.len() }
         decreases parent.d().kids.len() - it__0.pos()»
        {
            if let Some(x__0) = it__0.next() {
                if n__1 == idx {
                    r__0 = Some(x__0);
                    break;
                }
                n__1 = n__1 + 1;
            } else {
                break;
            }
        }
        «proof { if r__0.is_some() { assert(in_kids(node.t(), parent.i(), idx as int)); lemma_kid_anc(node.t(), parent.i(), idx as int); assert(child_ok(node.t(), parent.i(), idx as int)); } }»
        r__0
    }
}
//@end

//@fn fall/tree/src/search.rs common_ancestor ## C10
pub fn common_ancestor<'f>(n1: Node<'f>, n2: Node<'f>) -> «(r:» Node<'f> «)
    requires n1.wf(), n2.in_tree_of(n1)
    // above both, and below everything else that is above both
    ensures r.in_tree_of(n1), anc(n1.t(), r.i(), n1.i()), anc(n1.t(), r.i(), n2.i()),
        forall|a: int| #[trigger] anc(n1.t(), a, n1.i()) && anc(n1.t(), a, n2.i()) ==> anc(n1.t(), a, r.i())» {
    «let ghost ns = n1.t();»
    {
        let mut it__0 = ancestors(n1);
        loop
        «invariant_except_break n1.wf(), n2.in_tree_of(n1), ns == n1.t(), it__0.wf(), it__0.0.is_some(), it__0.0->0.in_tree_of(n1), anc(ns, it__0.0->0.i(), n1.i()),
            forall|a: int| #[trigger] anc(ns, a, n1.i()) && anc(ns, a, n2.i()) ==> anc(ns, a, it__0.0->0.i())
         ensures false
         decreases it__0.0->0.i()»
        {
            «let ghost c = it__0.0->0.i();»
            if let Some(x__0) = it__0.next() {
                let p = x__0;
                if {
                    let mut r__0 = false;
                    let mut it__1 = ancestors(n2);
                    loop
                    «invariant_except_break !r__0, it__1.0.is_some() ==> it__1.0->0.in_tree_of(n1) && (anc(ns, c, n2.i()) ==> anc(ns, c, it__1.0->0.i())) && anc(ns, it__1.0->0.i(), n2.i()), it__1.0.is_none() ==> !anc(ns, c, n2.i())
                     invariant n1.wf(), n2.in_tree_of(n1), ns == n1.t(), it__1.wf(), p.in_tree_of(n1), p.i() == c
                     ensures r__0 == anc(ns, c, n2.i())
                     decreases if it__1.0.is_some() { it__1.0->0.i() + 1 } else { 0 }»
                    {
                        if let Some(x__1) = it__1.next() {
                            let a = x__1;
                            «proof { lemma_parent(ns, a.i()); if a.i() > 0 { let q = ns[a.i()].parent->0; assert(anc(ns, q, q)); assert(anc(ns, q, a.i())); lemma_anc_trans(ns, q, a.i(), n2.i()); } }»
                            if a == p {
                                r__0 = true;
                                break;
                            }
                        } else {
                            break;
                        }
                    }
                    r__0
                } {
                    return p;
                }
                «proof {
                    // the root is above everything
                    lemma_chain(ns, n2.i(), 0); lemma_chain(ns, n2.i(), c);
                    assert(chain(ns, n2.i()).contains(0));
                    assert(c != 0);
                    lemma_parent(ns, c);
                    let q = ns[c].parent->0;
                    assert(anc(ns, q, q)); assert(anc(ns, q, c));
                    lemma_anc_trans(ns, q, c, n1.i());
                }»
            } else {
                break;
            }
        }
    }
    vpanic()
}
//@end

//@fn fall/tree/src/search.rs is_leaf ## C10
pub fn is_leaf(node: Node) -> «(r:» bool «) requires node.wf() ensures r == leaf_at(node.t(), node.i())» {
    node.children().next().is_none() && !node.range().is_empty()
}
//@end

//@item fall/tree/src/search.rs enum:LeafAtOffset
«#[derive(Clone, Copy)]»
pub enum LeafAtOffset<'f> {
    None,
    Single(Node<'f>),
    Between(Node<'f>, Node<'f>)
}
//@end

/// what the leaf query must return
pub open spec fn leaf_answer(n: Node, off: int, r: LeafAtOffset) -> bool {
    match r {
        LeafAtOffset::None => n.empty(),
        // the only leaf that touches the offset
        LeafAtOffset::Single(l) => !n.empty() && l.in_tree_of(n) && touching_leaf(n.t(), n.i(), l.i(), off)
            && (l.d().start < off || off == n.d().start) && (off < l.d().end || off == n.d().end),
        // the two leaves the offset lies between
        LeafAtOffset::Between(a, b) => !n.empty() && a.in_tree_of(n) && b.in_tree_of(n) && touching_leaf(n.t(), n.i(), a.i(), off) && touching_leaf(n.t(), n.i(), b.i(), off)
            && a.d().end == off && b.d().start == off,
    }
}
/// C10: the answer names exactly the leaves that touch the offset
pub proof fn lemma_leaf_answer(n: Node, off: int, r: LeafAtOffset, i: int)
    requires n.wf(), leaf_answer(n, off, r), touching_leaf(n.t(), n.i(), i, off)
    ensures match r { LeafAtOffset::None => false, LeafAtOffset::Single(l) => i == l.i(), LeafAtOffset::Between(a, b) => i == a.i() || i == b.i() }
{
    let ns = n.t();
    lemma_anc_range(ns, n.i(), i);
    match r {
        LeafAtOffset::None => {}
        LeafAtOffset::Single(l) => {
            lemma_anc_range(ns, n.i(), l.i());
            if apart(ns, i, l.i()) {} else { lemma_leaf_unique(ns, i, l.i()); }
        }
        LeafAtOffset::Between(a, b) => {
            if !apart(ns, i, a.i()) { lemma_leaf_unique(ns, i, a.i()); }
            if !apart(ns, i, b.i()) { lemma_leaf_unique(ns, i, b.i()); }
        }
    }
}

impl<'f> LeafAtOffset<'f> {
//@fn fall/tree/src/search.rs LeafAtOffset::right_biased ## C10
    pub fn right_biased(self) -> «(r:» Option<Node<'f>> «)
        ensures r == (match self { LeafAtOffset::None => None, LeafAtOffset::Single(n) => Some(n), LeafAtOffset::Between(a, b) => Some(b) })» {
        match self {
            LeafAtOffset::None => None,
            LeafAtOffset::Single(node) => Some(node),
            LeafAtOffset::Between(_, right) => Some(right)
        }
    }
//@end
//@fn fall/tree/src/search.rs LeafAtOffset::left_biased ## C10
    pub fn left_biased(self) -> «(r:» Option<Node<'f>> «)
        ensures r == (match self { LeafAtOffset::None => None, LeafAtOffset::Single(n) => Some(n), LeafAtOffset::Between(a, b) => Some(a) })» {
        match self {
            LeafAtOffset::None => None,
            LeafAtOffset::Single(node) => Some(node),
            LeafAtOffset::Between(left, _) => Some(left)
        }
    }
//@end
    pub open spec fn leaves(self) -> Seq<Node<'f>> {
        match self { LeafAtOffset::None => Seq::empty(), LeafAtOffset::Single(n) => seq![n], LeafAtOffset::Between(a, b) => seq![a, b] }
    }
//@rewrite1 fn next ==> pub fn next
//@fn fall/tree/src/search.rs <LeafAtOffset as Iterator>::next ## C10
    pub fn next(&mut self) -> «(r:» Option<Node<'f>> «)
        ensures match r {
            Some(n) => old(self).leaves() == seq![n] + final(self).leaves(),
            None => old(self).leaves().len() == 0 && final(self).leaves().len() == 0,
        }» {
        match *self {
            LeafAtOffset::None => None,
            LeafAtOffset::Single(node) => { *self = LeafAtOffset::None; «assert(seq![node] + Seq::<Node>::empty() =~= seq![node]);» Some(node) }
            LeafAtOffset::Between(left, right) => { *self = LeafAtOffset::Single(right); «assert(seq![left] + seq![right] =~= seq![left, right]);» Some(left) }
        }
    }
//@end
}

/// the non-empty children that touch an offset
pub open spec fn hit(ns: Seq<ND>, i: int, off: int) -> bool { ns[i].start < ns[i].end && touches(ns, i, off) }
pub open spec fn hits(ns: Seq<ND>, s: Seq<int>, off: int) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if hit(ns, s.last(), off) { hits(ns, s.drop_last(), off).push(s.last()) } else { hits(ns, s.drop_last(), off) }
}
pub open spec fn kid_below(ns: Seq<ND>, p: int, n: int, x: int) -> bool { exists|k: int| in_kids(ns, p, k) && k < n && ns[p].kids[k] == x }
pub proof fn lemma_hits_kids(ns: Seq<ND>, p: int, n: int, off: int)
    requires tree_wf(ns), 0 <= p < ns.len(), 0 <= n <= ns[p].kids.len()
    ensures
        forall|j: int| 0 <= j < hits(ns, ns[p].kids.take(n), off).len() ==> #[trigger] kid_below(ns, p, n, hits(ns, ns[p].kids.take(n), off)[j]),
        forall|j: int| 0 <= j < hits(ns, ns[p].kids.take(n), off).len() ==> #[trigger] hit(ns, hits(ns, ns[p].kids.take(n), off)[j], off),
    decreases n
{
    let s = ns[p].kids.take(n);
    let h = hits(ns, s, off);
    if n == 0 { assert(s.len() == 0); assert(h.len() == 0); }
    if n > 0 {
        lemma_hits_kids(ns, p, n - 1, off);
        let g = hits(ns, s.drop_last(), off);
        assert(s.drop_last() =~= ns[p].kids.take(n - 1));
        assert forall|j: int| 0 <= j < h.len() implies #[trigger] hit(ns, h[j], off) by {
            if j < g.len() { assert(hit(ns, g[j], off)); assert(h[j] == g[j]); }
        }
        assert forall|j: int| 0 <= j < h.len() implies #[trigger] kid_below(ns, p, n, h[j]) by {
            if j < g.len() {
                assert(h[j] == g[j]);
                assert(kid_below(ns, p, n - 1, g[j]));
                let k = choose|k: int| in_kids(ns, p, k) && k < n - 1 && ns[p].kids[k] == g[j];
                assert(in_kids(ns, p, k) && k < n && ns[p].kids[k] == h[j]);
            } else {
                assert(in_kids(ns, p, n - 1) && ns[p].kids[n - 1] == h[j]);
            }
        }
    }
}
/// there are one or two of them, and two meet at the offset
pub proof fn lemma_hits(ns: Seq<ND>, p: int, n: int, off: int)
    requires tree_wf(ns), 0 <= p < ns.len(), 0 < n <= ns[p].kids.len(), ns[p].start <= off, ns[p].start <= ns[ns[p].kids[n - 1]].end
    ensures
        hits(ns, ns[p].kids.take(n), off).len() <= 2,
        off <= ns[ns[p].kids[n - 1]].end && ns[p].start < ns[ns[p].kids[n - 1]].end ==> hits(ns, ns[p].kids.take(n), off).len() >= 1,
        hits(ns, ns[p].kids.take(n), off).len() == 2 ==> ns[hits(ns, ns[p].kids.take(n), off)[0]].end == off && ns[hits(ns, ns[p].kids.take(n), off)[1]].start == off,
        hits(ns, ns[p].kids.take(n), off).len() == 1 ==> (ns[hits(ns, ns[p].kids.take(n), off)[0]].start < off || ns[p].start == off)
            && (off < ns[hits(ns, ns[p].kids.take(n), off)[0]].end || ns[hits(ns, ns[p].kids.take(n), off)[0]].end == ns[ns[p].kids[n - 1]].end),
        hits(ns, ns[p].kids.take(n), off).len() == 0 ==> off > ns[ns[p].kids[n - 1]].end || ns[ns[p].kids[n - 1]].end == ns[p].start,
    decreases n
{
    let s = ns[p].kids.take(n);
    let k = n - 1;
    assert(in_kids(ns, p, k) && child_ok(ns, p, k));
    lemma_kid_inside(ns, p, k);
    assert(s.last() == ns[p].kids[k]);
    assert(s.drop_last() =~= ns[p].kids.take(n - 1));
    if k > 0 {
        assert(in_kids(ns, p, k - 1));
        lemma_kid_inside(ns, p, k - 1);
        lemma_hits(ns, p, n - 1, off);
        assert(done_at(ns, p));
        assert(tile(ns, p, ns[p].kids.len() as int));
        assert(adj(ns, p, k));
    } else {
        assert(done_at(ns, p));
        assert(hits(ns, s.drop_last(), off) =~= Seq::<int>::empty());
    }
    lemma_hits_kids(ns, p, n - 1, off);
    let g = hits(ns, s.drop_last(), off);
    if g.len() == 1 { assert(hit(ns, g[0], off)); }
    if hit(ns, s.last(), off) {
        if g.len() == 2 {
            assert(hit(ns, g[1], off));
            assert(kid_below(ns, p, n - 1, g[1]));
            let a = choose|a: int| in_kids(ns, p, a) && a < n - 1 && ns[p].kids[a] == g[1];
            lemma_kids_ordered(ns, p, a, k);
        }
        if g.len() == 1 {
            assert(hit(ns, g[0], off));
            assert(kid_below(ns, p, n - 1, g[0]));
            let a = choose|a: int| in_kids(ns, p, a) && a < n - 1 && ns[p].kids[a] == g[0];
            lemma_kids_ordered(ns, p, a, k);
        }
    }
}

//@rewrite1 TextUnit ) -> LeafAtOffset ==> TextUnit ) -> LeafAtOffset
//@iterfn find_leaf_at_offset
//@fn fall/tree/src/search.rs find_leaf_at_offset ## C10
pub fn find_leaf_at_offset(node: Node, offset: TextUnit) -> «(r:» LeafAtOffset «)
    requires node.wf(), node.d().start <= offset.0 <= node.d().end
    ensures leaf_answer(node, offset.0 as int, r)
    decreases node.t().len() - node.i()» {
    let range = node.range();
    vassert(node.range().contains_offset_nonstrict(offset));
    if range.is_empty() {
        return LeafAtOffset::None;
    }
    «assert(anc(node.t(), node.i(), node.i()));»
    if is_leaf(node) {
        return LeafAtOffset::Single(node);
    }
    «let ghost ns = node.t(); let ghost kids = node.d().kids; let ghost off = offset.0 as int;»
    let mut children = {
        let mut r__0 «: Vec<Node>» = Vec::new();
        let mut it__0 = node.children();
        «proof { lemma_kids_below(node.t(), node.i()); assert(kids.take(0) =~= Seq::<int>::empty()); }»
        loop
        «invariant_except_break it__0.pos() <= kids.len(), nix(r__0@) =~= hits(ns, kids.take(it__0.pos()), off), all_in(r__0@, node)
         invariant it__0.of(node), node.wf(), ns == node.t(), kids == node.d().kids, off == offset.0, forall|k: int| 0 <= k < kids.len() ==> node.i() < #[trigger] kids[k] < ns.len(),
         ensures nix(r__0@) =~= hits(ns, kids, off), all_in(r__0@, node)
         decreases kids.len() - it__0.pos()»
        {
            «let ghost k = it__0.pos(); let ghost s = r__0@;»
            if let Some(x__0) = it__0.next() {
                «proof { assert(x__0.i() == kids[k]); assert(kids.take(k + 1).drop_last() =~= kids.take(k)); }»
                let child = &x__0;
                if !child.range().is_empty() {
                    let child = &x__0;
                    if child.range().contains_offset_nonstrict(offset) {
                        r__0.push(x__0);
                        «proof { assert(nix(r__0@) =~= nix(s).push(x__0.i())); }»
                    }
                }
            } else {
                «proof { assert(kids.take(kids.len() as int) =~= kids); }»
                break;
            }
        }
        vec_iter(r__0)
    };
    «let ghost h = children.v@;
    proof {
        assert(done_at(ns, node.i()));
        assert(kids.take(kids.len() as int) =~= kids);
        lemma_hits(ns, node.i(), kids.len() as int, off);
        lemma_hits_kids(ns, node.i(), kids.len() as int, off);
        assert(h.len() == nix(h).len());
        assert forall|j: int| 0 <= j < h.len() implies hit(ns, (#[trigger] h[j]).i(), off) && h[j].i() > node.i() && anc(ns, node.i(), h[j].i())
            && node.d().start <= h[j].d().start && h[j].d().end <= node.d().end by {
            assert(nix(h)[j] == h[j].i());
            assert(hit(ns, nix(h)[j], off));
            assert(kid_below(ns, node.i(), kids.len() as int, nix(h)[j]));
            let k = choose|k: int| in_kids(ns, node.i(), k) && kids[k] == nix(h)[j];
            lemma_kid_inside(ns, node.i(), k);
            lemma_kid_anc(ns, node.i(), k);
        }
        if h.len() == 1 { assert(nix(h)[0] == h[0].i()); }
        if h.len() == 2 { assert(nix(h)[0] == h[0].i() && nix(h)[1] == h[1].i()); }
    }»
    let left = children.next().unwrap();
    let right = children.next();
    vassert(children.next().is_none());
    «proof {
        assert forall|x: int| 0 <= x < ns.len() && #[trigger] anc(ns, left.i(), x) implies anc(ns, node.i(), x) && left.d().start <= ns[x].start && ns[x].end <= left.d().end by { lemma_anc_trans(ns, node.i(), left.i(), x); lemma_anc_range(ns, left.i(), x); }
        if right.is_some() {
            assert forall|x: int| 0 <= x < ns.len() && #[trigger] anc(ns, right->0.i(), x) implies anc(ns, node.i(), x) && right->0.d().start <= ns[x].start && ns[x].end <= right->0.d().end by { lemma_anc_trans(ns, node.i(), right->0.i(), x); lemma_anc_range(ns, right->0.i(), x); }
        }
    }»
    return if let Some(right) = right {
        match (find_leaf_at_offset(left, offset), find_leaf_at_offset(right, offset)) {
            (LeafAtOffset::Single(left), LeafAtOffset::Single(right)) => LeafAtOffset::Between(left, right),
            _ => vpanic()
        }
    } else {
        find_leaf_at_offset(left, offset)
    };
}
//@end

pub open spec fn covers(ns: Seq<ND>, i: int, start: int, end: int) -> bool { ns[i].start <= start && end <= ns[i].end }
/// the smallest node of the subtree of `top` that covers a range
pub open spec fn covering(ns: Seq<ND>, top: int, r: int, start: int, end: int) -> bool {
    &&& 0 <= r < ns.len() && anc(ns, top, r) && covers(ns, r, start, end)
    // of a range with text: every other node that covers it is further up
    &&& (start < end ==> forall|a: int| 0 <= a < ns.len() && anc(ns, top, a) && #[trigger] covers(ns, a, start, end) ==> anc(ns, a, r))
    // of a caret: the lowest node that holds the leaves at both sides of it
    &&& (start == end && ns[top].start < ns[top].end ==> (forall|l: int| #[trigger] touching_leaf(ns, top, l, start) ==> anc(ns, r, l))
        && forall|a: int| 0 <= a < ns.len() && (forall|l: int| touching_leaf(ns, top, l, start) ==> anc(ns, a, l)) ==> #[trigger] anc(ns, a, r))
    &&& (ns[top].start == ns[top].end ==> r == top)
}

//@fn fall/tree/src/search.rs find_covering_node ## C10
pub fn find_covering_node(root: Node, range: TextRange) -> «(r:» Node «)
    requires root.wf(), range.wf(), root.d().start <= range.start.0, range.end.0 <= root.d().end
    ensures r.in_tree_of(root), covering(root.t(), root.i(), r.i(), range.start.0 as int, range.end.0 as int)» {
    vassert(range.is_subrange_of(root.range()));
    «let ghost ns = root.t(); let ghost s = range.start.0 as int; let ghost e = range.end.0 as int; let ghost top = root.i(); assert(anc(ns, top, top));»
    let (left, right) = match (
        find_leaf_at_offset(root, range.start()).right_biased(),
        find_leaf_at_offset(root, range.end()).left_biased()
    ) {
        (Some(l), Some(r)) => (l, r),
        _ => return root
    };
    «proof { lemma_covering(root, left.i(), right.i(), s, e); }»
    common_ancestor(left, right)
}
//@end

/// the lowest node above the two leaves at the ends of a range is the smallest node that covers it
pub proof fn lemma_covering(root: Node, l: int, r: int, s: int, e: int)
    requires root.wf(), root.d().start <= s <= e <= root.d().end, !root.empty(),
        touching_leaf(root.t(), root.i(), l, s), touching_leaf(root.t(), root.i(), r, e),
        s < root.t()[l].end || s == root.d().end, root.t()[r].start < e || e == root.d().start
    ensures forall|c: int| 0 <= c < root.t().len() && #[trigger] anc(root.t(), c, l) && anc(root.t(), c, r)
        && (forall|a: int| #[trigger] anc(root.t(), a, l) && anc(root.t(), a, r) ==> anc(root.t(), a, c)) ==> covering(root.t(), root.i(), c, s, e)
{
    let ns = root.t();
    let top = root.i();
    assert forall|c: int| 0 <= c < ns.len() && #[trigger] anc(ns, c, l) && anc(ns, c, r)
        && (forall|a: int| #[trigger] anc(ns, a, l) && anc(ns, a, r) ==> anc(ns, a, c)) implies covering(ns, top, c, s, e) by {
        assert(anc(ns, top, l) && anc(ns, top, r));
        lemma_anc_range(ns, c, l);
        lemma_anc_range(ns, c, r);
        if s < e {
            assert forall|a: int| 0 <= a < ns.len() && anc(ns, top, a) && #[trigger] covers(ns, a, s, e) implies anc(ns, a, c) by {
                lemma_anc_range(ns, top, a);
                lemma_covers_leaf(ns, a, l, s, e);
                lemma_covers_leaf(ns, a, r, s, e);
            }
        } else {
            assert forall|x: int| #[trigger] touching_leaf(ns, top, x, s) implies anc(ns, c, x) by {
                lemma_anc_range(ns, top, x);
                if !apart(ns, x, l) { lemma_leaf_unique(ns, x, l); }
                if !apart(ns, x, r) { lemma_leaf_unique(ns, x, r); }
            }
            assert forall|a: int| 0 <= a < ns.len() && (forall|x: int| touching_leaf(ns, top, x, s) ==> anc(ns, a, x)) implies #[trigger] anc(ns, a, c) by {
                assert(touching_leaf(ns, top, l, s) && touching_leaf(ns, top, r, s));
                assert(anc(ns, a, l) && anc(ns, a, r));
            }
        }
    }
}
/// a node that shares text with a leaf is above it
pub proof fn lemma_covers_leaf(ns: Seq<ND>, a: int, l: int, s: int, e: int)
    requires tree_wf(ns), 0 <= a < ns.len(), 0 <= l < ns.len(), leaf_at(ns, l), s < e, covers(ns, a, s, e), s < ns[l].end, ns[l].start < e
    ensures anc(ns, a, l)
{
    lemma_nested_or_apart(ns, a, l);
    if !anc(ns, a, l) && anc(ns, l, a) { let k = lemma_below_kid(ns, l, a); }
}

} // verus!
