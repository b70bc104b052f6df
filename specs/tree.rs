// Trees: fall/tree/src/node/tree_builder.rs, imp.rs, mod.rs
//@owner C09
verus! {

//@item fall/tree/src/node/tree_builder.rs struct:NodeId
«#[derive(Clone, Copy, PartialEq, Eq, Structural)]»
pub struct NodeId(pub u32);
//@end

//@item fall/tree/src/node/tree_builder.rs struct:NodeData
pub struct NodeData {
    pub ty: NodeType,
    pub parent: Option<NodeId>,
    pub children: Vec<NodeId>,
    pub range: TextRange,
}
//@end

//@item fall/tree/src/node/tree_builder.rs struct:TreeBuilder
pub struct TreeBuilder {
    pub nodes: Vec<NodeData>,
    pub in_progress: Vec<NodeId>,
    pub pos: TextUnit,
}
//@end

// ---- trees as values ---------------------------------------------------------------------
pub struct ND { pub ty: NodeType, pub parent: Option<int>, pub kids: Seq<int>, pub start: int, pub end: int }

pub open spec fn ids(s: Seq<NodeId>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].0 as int) }
pub open spec fn nd(d: NodeData) -> ND {
    ND {
        ty: d.ty, parent: match d.parent { Some(p) => Some(p.0 as int), None => None },
        kids: ids(d.children@), start: d.range.start.0 as int, end: d.range.end.0 as int,
    }
}
pub open spec fn nds(s: Seq<NodeData>) -> Seq<ND> { Seq::new(s.len(), |i: int| nd(s[i])) }

pub open spec fn in_kids(ns: Seq<ND>, p: int, k: int) -> bool { 0 <= p < ns.len() && 0 <= k < ns[p].kids.len() }
/// the `k`-th child starts where the child before it ends
pub open spec fn adj(ns: Seq<ND>, i: int, k: int) -> bool { ns[ns[i].kids[k]].start == ns[ns[i].kids[k - 1]].end }
/// the first `n` children of `i` tile the range of `i`; without children the range is empty
pub open spec fn part(ns: Seq<ND>, i: int, n: int) -> bool {
    if n <= 0 { ns[i].start == ns[i].end } else { tile(ns, i, n) }
}
pub open spec fn tile(ns: Seq<ND>, i: int, n: int) -> bool {
    ns[ns[i].kids[0]].start == ns[i].start && ns[ns[i].kids[n - 1]].end == ns[i].end
    && forall|k: int| 0 < k < n ==> #[trigger] adj(ns, i, k)
}
/// the `k`-th child of `p` names `p` as its parent
pub open spec fn child_ok(ns: Seq<ND>, p: int, k: int) -> bool {
    p < ns[p].kids[k] < ns.len() && ns[ns[p].kids[k]].parent == Some(p)
}
/// `c` has a parent, which lists it
pub open spec fn parent_ok(ns: Seq<ND>, c: int) -> bool {
    ns[c].parent.is_some() && 0 <= ns[c].parent->0 < c && ns[ns[c].parent->0].kids.contains(c)
}
pub open spec fn span_ok(ns: Seq<ND>, i: int) -> bool { 0 <= ns[i].start <= ns[i].end }
/// children name their parent, parents list their children, siblings come in order
pub open spec fn links(ns: Seq<ND>) -> bool {
    &&& (ns.len() > 0 ==> ns[0].parent.is_none())
    &&& (forall|p: int, k: int| in_kids(ns, p, k) ==> #[trigger] child_ok(ns, p, k))
    &&& (forall|p: int, k: int, l: int| #[trigger] in_kids(ns, p, k) && #[trigger] in_kids(ns, p, l) && k < l ==> ns[p].kids[k] < ns[p].kids[l])
    &&& (forall|c: int| 0 < c < ns.len() ==> #[trigger] parent_ok(ns, c))
    &&& (forall|i: int| 0 <= i < ns.len() ==> #[trigger] span_ok(ns, i))
}
pub open spec fn done_at(ns: Seq<ND>, i: int) -> bool { ns[i].kids.len() > 0 ==> tile(ns, i, ns[i].kids.len() as int) }
/// a finished tree
pub open spec fn tree_wf(ns: Seq<ND>) -> bool {
    ns.len() > 0 && links(ns) && forall|i: int| 0 <= i < ns.len() ==> #[trigger] done_at(ns, i)
}

/// what a builder holds
pub struct BV { pub ns: Seq<ND>, pub stack: Seq<int>, pub pos: int }

pub open spec fn add_kid(ns: Seq<ND>, p: int, child: ND) -> Seq<ND> {
    ns.update(p, ND { kids: ns[p].kids.push(ns.len() as int), ..ns[p] }).push(child)
}
pub open spec fn set_end(ns: Seq<ND>, p: int, end: int) -> Seq<ND> { ns.update(p, ND { end: end, ..ns[p] }) }

impl BV {
    pub open spec fn top(self) -> int { self.stack.last() }
    pub open spec fn leaf(self, ty: NodeType, len: int) -> BV {
        let p = self.top();
        BV {
            ns: set_end(add_kid(self.ns, p, ND { ty: ty, parent: Some(p), kids: Seq::empty(), start: self.pos, end: self.pos + len }), p, self.pos + len),
            stack: self.stack, pos: self.pos + len,
        }
    }
    pub open spec fn open(self, ty: NodeType) -> BV {
        let id = self.ns.len() as int;
        let node = ND { ty: ty, parent: if self.stack.len() == 0 { None } else { Some(self.top()) }, kids: Seq::empty(), start: self.pos, end: self.pos };
        BV { ns: if self.stack.len() == 0 { self.ns.push(node) } else { add_kid(self.ns, self.top(), node) }, stack: self.stack.push(id), pos: self.pos }
    }
    pub open spec fn close(self) -> BV {
        let stack = self.stack.drop_last();
        BV { ns: if stack.len() == 0 { self.ns } else { set_end(self.ns, stack.last(), self.ns[self.top()].end) }, stack: stack, pos: self.pos }
    }
    /// the `j`-th open node is the last child of the open node before it
    pub open spec fn stack_at(self, j: int) -> bool {
        &&& 0 <= self.stack[j] < self.ns.len()
        &&& (j > 0 ==> self.ns[self.stack[j - 1]].kids.len() > 0 && self.stack[j] == self.ns[self.stack[j - 1]].kids.last())
    }
    /// an open node below the top is tiled up to its last child, which is open too
    pub open spec fn open_at(self, j: int) -> bool {
        part(self.ns, self.stack[j], self.ns[self.stack[j]].kids.len() - 1)
        && self.ns[self.ns[self.stack[j]].kids.last()].start == self.ns[self.stack[j]].end
    }
    pub open spec fn inv(self) -> bool {
        &&& links(self.ns)
        &&& 0 <= self.pos
        &&& (self.stack.len() > 0 ==> self.ns.len() > 0 && self.stack[0] == 0)
        &&& (forall|j: int| 0 <= j < self.stack.len() ==> #[trigger] self.stack_at(j))
        &&& (forall|j: int| 0 <= j < self.stack.len() - 1 ==> #[trigger] self.open_at(j))
        &&& (self.stack.len() > 0 ==> part(self.ns, self.top(), self.ns[self.top()].kids.len() as int) && self.ns[self.top()].end == self.pos)
        &&& (forall|i: int| 0 <= i < self.ns.len() && !self.stack.contains(i) ==> #[trigger] done_at(self.ns, i))
        &&& (self.ns.len() > 0 ==> self.ns[0].start == 0)
        &&& (self.ns.len() > 0 && self.stack.len() == 0 ==> self.ns[0].end == self.pos)
    }
    pub proof fn lemma_stack_increasing(self, a: int, b: int)
        requires self.inv(), 0 <= a < b < self.stack.len()
        ensures self.stack[a] < self.stack[b]
        decreases b - a
    {
        assert(self.stack_at(b) && self.stack_at(b - 1));
        let q = self.stack[b - 1];
        assert(in_kids(self.ns, q, self.ns[q].kids.len() - 1));
        assert(child_ok(self.ns, q, self.ns[q].kids.len() - 1));
        if a < b - 1 { self.lemma_stack_increasing(a, b - 1); }
    }
    /// only the last child of an open node can be open
    pub proof fn lemma_not_open(self, j: int, x: int)
        requires self.inv(), 0 <= j < self.stack.len(), 0 <= x < self.stack.len(), x != j + 1
        ensures forall|k: int| 0 <= k < self.ns[self.stack[j]].kids.len() ==> #[trigger] self.ns[self.stack[j]].kids[k] != self.stack[x]
    {
        let i = self.stack[j];
        let n = self.ns[i].kids.len() as int;
        assert forall|k: int| 0 <= k < n implies #[trigger] self.ns[i].kids[k] != self.stack[x] by {
            assert(self.stack_at(j));
            assert(in_kids(self.ns, i, k) && child_ok(self.ns, i, k));
            if self.ns[i].kids[k] == self.stack[x] {
                if x <= j { if x < j { self.lemma_stack_increasing(x, j); } }
                else {
                    assert(self.stack_at(x) && self.stack_at(x - 1));
                    let q = self.stack[x - 1];
                    assert(in_kids(self.ns, q, self.ns[q].kids.len() - 1) && child_ok(self.ns, q, self.ns[q].kids.len() - 1));
                    assert(q == i);
                    self.lemma_stack_increasing(j, x - 1);
                }
            }
        }
    }
    pub proof fn lemma_not_open_before(self, j: int)
        requires self.inv(), 0 <= j < self.stack.len() - 1
        ensures forall|k: int| 0 <= k < self.ns[self.stack[j]].kids.len() - 1 ==> #[trigger] self.ns[self.stack[j]].kids[k] != self.stack[j + 1]
    {
        let i = self.stack[j];
        let n = self.ns[i].kids.len() as int;
        assert(self.stack_at(j) && self.stack_at(j + 1));
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] self.ns[i].kids[k] != self.stack[j + 1] by {
            assert(in_kids(self.ns, i, k) && in_kids(self.ns, i, n - 1));
        }
    }
    /// growing the top node disturbs no finished range
    pub proof fn lemma_leaf(self, ty: NodeType, len: int)
        requires self.inv(), self.stack.len() > 0, len >= 0
        ensures self.leaf(ty, len).inv()
    {
        let n = self.leaf(ty, len);
        let p = self.top();
        let t = self.stack.len() - 1;
        let id = self.ns.len() as int;
        let m = self.ns[p].kids.len() as int;
        assert(self.stack_at(t));
        assert(span_ok(self.ns, p));
        assert(n.ns[p].kids == self.ns[p].kids.push(id));
        assert(n.ns[id] == ND { ty: ty, parent: Some(p), kids: Seq::empty(), start: self.pos, end: self.pos + len });
        lemma_add_kid_links(self.ns, n.ns, p, id);
        assert forall|j: int| 0 <= j < n.stack.len() implies #[trigger] n.stack_at(j) by {
            assert(self.stack_at(j));
            if j > 0 {
                assert(self.stack_at(j - 1));
                self.lemma_stack_increasing(j - 1, t);
            }
        }
        assert forall|j: int| 0 <= j < n.stack.len() - 1 implies #[trigger] n.open_at(j) by {
            assert(self.open_at(j) && self.stack_at(j) && self.stack_at(j + 1));
            self.lemma_stack_increasing(j, t);
            if j + 1 < t { self.lemma_not_open(j, t); } else { self.lemma_not_open_before(j); }
            let i = self.stack[j];
            lemma_kids_below(self.ns, i);
            lemma_part_same(self.ns, n.ns, i, self.ns[i].kids.len() - 1);
        }
        assert(part(n.ns, p, m + 1)) by {
            lemma_kids_below(self.ns, p);
            assert forall|k: int| 0 < k < m + 1 implies #[trigger] adj(n.ns, p, k) by {
                assert(n.ns[p].kids[k - 1] == self.ns[p].kids[k - 1]);
                if k < m { assert(n.ns[p].kids[k] == self.ns[p].kids[k]); assert(adj(self.ns, p, k)); }
            }
            if m > 0 { assert(n.ns[p].kids[0] == self.ns[p].kids[0]); }
        }
        assert forall|i: int| 0 <= i < n.ns.len() && !n.stack.contains(i) implies #[trigger] done_at(n.ns, i) by {
            assert(self.stack[t] == p);
            if i != id && n.ns[i].kids.len() > 0 {
                assert(done_at(self.ns, i));
                lemma_not_parent(self, i, t);
                lemma_kids_below(self.ns, i);
                lemma_part_same(self.ns, n.ns, i, self.ns[i].kids.len() as int);
            }
        }
    }
    pub proof fn lemma_open(self, ty: NodeType)
        requires self.inv(), self.stack.len() > 0 || self.ns.len() == 0 && self.pos == 0
        ensures self.open(ty).inv(), self.open(ty).stack.len() > 0
    {
        let n = self.open(ty);
        let id = self.ns.len() as int;
        if self.stack.len() > 0 {
            let p = self.top();
            let t = self.stack.len() - 1;
            assert(self.stack_at(t));
        assert(span_ok(self.ns, p));
            assert(n.ns[p].kids == self.ns[p].kids.push(id));
            assert(n.ns[id].kids.len() == 0 && n.ns[id].start == self.pos && n.ns[id].end == self.pos && n.ns[id].parent == Some(p));
            lemma_add_kid_links(self.ns, n.ns, p, id);
            assert forall|j: int| 0 <= j < n.stack.len() implies #[trigger] n.stack_at(j) by {
                if j <= t {
                    assert(self.stack_at(j));
                    if j > 0 { assert(self.stack_at(j - 1)); self.lemma_stack_increasing(j - 1, t); }
                }
            }
            assert forall|j: int| 0 <= j < n.stack.len() - 1 implies #[trigger] n.open_at(j) by {
                let i = self.stack[j];
                assert(n.stack[j] == i);
                assert(self.stack_at(j));
                lemma_kids_below(self.ns, i);
                if j == t {
                    lemma_part_same(self.ns, n.ns, p, self.ns[p].kids.len() as int);
                } else {
                    assert(self.open_at(j) && self.stack_at(j + 1));
                    self.lemma_stack_increasing(j, t);
                    lemma_part_same(self.ns, n.ns, i, self.ns[i].kids.len() - 1);
                }
            }
            assert forall|i: int| 0 <= i < n.ns.len() && !n.stack.contains(i) implies #[trigger] done_at(n.ns, i) by {
                assert(n.stack[t + 1] == id && n.stack[t] == p);
                assert(!self.stack.contains(i)) by {
                    if self.stack.contains(i) { let x = choose|x: int| 0 <= x < self.stack.len() && self.stack[x] == i; assert(n.stack[x] == i); }
                }
                assert(done_at(self.ns, i));
                if n.ns[i].kids.len() > 0 {
                    lemma_kids_below(self.ns, i);
                    lemma_part_same(self.ns, n.ns, i, self.ns[i].kids.len() as int);
                }
            }
        } else {
            assert(n.ns =~= seq![n.ns[0]]);
            assert(n.stack =~= seq![0int]);
            assert(links(n.ns)) by {
                assert forall|q: int, k: int| in_kids(n.ns, q, k) implies #[trigger] child_ok(n.ns, q, k) by {}
            }
            assert(n.stack_at(0));
        }
    }
    pub proof fn lemma_close(self)
        requires self.inv(), self.stack.len() > 0
        ensures self.close().inv(), self.stack.len() > 1 ==> self.ns[self.stack[self.stack.len() - 2]].end == self.ns[self.top()].start
    {
        let n = self.close();
        let id = self.top();
        let t = self.stack.len() - 1;
        assert(self.stack_at(t));
        if self.stack.len() > 1 {
            let p = self.stack[t - 1];
            let m = self.ns[p].kids.len() as int;
            assert(n.stack.last() == p);
            assert(self.stack_at(t - 1) && self.open_at(t - 1));
            assert(span_ok(self.ns, id) && span_ok(self.ns, p));
            self.lemma_stack_increasing(t - 1, t);
            lemma_kids_below(self.ns, p);
            assert(n.ns[p].kids == self.ns[p].kids);
            assert(links(n.ns)) by { lemma_set_end_links(self.ns, p, self.ns[id].end); }
            assert forall|j: int| 0 <= j < n.stack.len() implies #[trigger] n.stack_at(j) by {
                assert(self.stack_at(j));
                if j > 0 { assert(self.stack_at(j - 1)); }
            }
            assert(part(n.ns, p, m)) by {
                assert forall|k: int| 0 < k < m implies #[trigger] adj(n.ns, p, k) by {
                    assert(self.ns[p].kids[k] != p && self.ns[p].kids[k - 1] != p);
                    if k < m - 1 { assert(adj(self.ns, p, k)); }
                }
                assert(self.ns[p].kids[0] != p && self.ns[p].kids[m - 1] != p);
            }
            assert forall|j: int| 0 <= j < n.stack.len() - 1 implies #[trigger] n.open_at(j) by {
                let i = self.stack[j];
                assert(n.stack[j] == i);
                assert(self.stack_at(j) && self.stack_at(j + 1) && self.open_at(j));
                self.lemma_stack_increasing(j, t - 1);
                lemma_kids_below(self.ns, i);
                if j + 1 < t - 1 { self.lemma_not_open(j, t - 1); } else { self.lemma_not_open_before(j); }
                lemma_part_same(self.ns, n.ns, i, self.ns[i].kids.len() - 1);
            }
            assert forall|i: int| 0 <= i < n.ns.len() && !n.stack.contains(i) implies #[trigger] done_at(n.ns, i) by {
                assert(n.stack[t - 1] == p);
                if self.stack.contains(i) {
                    let x = choose|x: int| 0 <= x < self.stack.len() && self.stack[x] == i;
                    if x < n.stack.len() { assert(n.stack[x] == i); }
                    assert(i == id);
                    if self.ns[i].kids.len() > 0 { self.lemma_not_open(t, t - 1); }
                } else {
                    assert(done_at(self.ns, i));
                    lemma_not_parent(self, i, t - 1);
                }
                if self.ns[i].kids.len() > 0 {
                    lemma_kids_below(self.ns, i);
                    lemma_part_same(self.ns, n.ns, i, self.ns[i].kids.len() as int);
                }
            }
        } else {
            assert(n.stack =~= Seq::<int>::empty());
            assert forall|i: int| 0 <= i < n.ns.len() && !n.stack.contains(i) implies #[trigger] done_at(n.ns, i) by {
                if self.stack.contains(i) { assert(i == id); } else { assert(done_at(self.ns, i)); }
            }
        }
    }
    /// the open nodes the code looks at
    pub proof fn lemma_top(self)
        requires self.inv(), self.stack.len() > 0
        ensures 0 <= self.top() < self.ns.len(), span_ok(self.ns, self.top()), self.ns[self.top()].end == self.pos,
            self.stack.len() > 1 ==> 0 <= self.stack[self.stack.len() - 2] < self.top() && span_ok(self.ns, self.stack[self.stack.len() - 2])
                && self.ns[self.stack[self.stack.len() - 2]].end == self.ns[self.top()].start
    {
        let t = self.stack.len() - 1;
        assert(self.stack_at(t));
        assert(span_ok(self.ns, self.top()));
        if t > 0 {
            assert(self.stack_at(t - 1) && self.open_at(t - 1));
            self.lemma_stack_increasing(t - 1, t);
            assert(span_ok(self.ns, self.stack[t - 1]));
        }
    }
    /// everything opened was closed: a finished tree over the whole text
    pub open spec fn done(self) -> bool { self.stack.len() == 0 && self.ns.len() > 0 }
    pub proof fn lemma_done(self)
        requires self.inv(), self.done()
        ensures tree_wf(self.ns), self.ns[0].start == 0, self.ns[0].end == self.pos
    {
        assert forall|i: int| 0 <= i < self.ns.len() implies #[trigger] done_at(self.ns, i) by { assert(!self.stack.contains(i)); }
    }
}

/// a finished node is not above an open node
pub proof fn lemma_not_parent(b: BV, i: int, x: int)
    requires b.inv(), 0 <= i < b.ns.len(), !b.stack.contains(i), 0 <= x < b.stack.len()
    ensures forall|k: int| 0 <= k < b.ns[i].kids.len() ==> #[trigger] b.ns[i].kids[k] != b.stack[x]
{
    assert forall|k: int| 0 <= k < b.ns[i].kids.len() implies #[trigger] b.ns[i].kids[k] != b.stack[x] by {
        assert(in_kids(b.ns, i, k) && child_ok(b.ns, i, k));
        if b.ns[i].kids[k] == b.stack[x] {
            assert(b.stack_at(x));
            if x > 0 {
                assert(b.stack_at(x - 1));
                let q = b.stack[x - 1];
                assert(in_kids(b.ns, q, b.ns[q].kids.len() - 1) && child_ok(b.ns, q, b.ns[q].kids.len() - 1));
                assert(b.stack[x - 1] == i);
            }
        }
    }
}
pub proof fn lemma_kids_below(ns: Seq<ND>, i: int)
    requires links(ns), 0 <= i < ns.len()
    ensures forall|k: int| 0 <= k < ns[i].kids.len() ==> i < #[trigger] ns[i].kids[k] < ns.len()
{
    assert forall|k: int| 0 <= k < ns[i].kids.len() implies i < #[trigger] ns[i].kids[k] < ns.len() by { assert(in_kids(ns, i, k) && child_ok(ns, i, k)); }
}
pub proof fn lemma_part_same(a: Seq<ND>, b: Seq<ND>, i: int, n: int)
    requires 0 <= i < a.len() <= b.len(), part(a, i, n), n <= a[i].kids.len(), n <= b[i].kids.len(), b[i].start == a[i].start, b[i].end == a[i].end,
        forall|k: int| 0 <= k < n ==> #[trigger] b[i].kids[k] == a[i].kids[k],
        forall|k: int| 0 <= k < n ==> b[#[trigger] a[i].kids[k]].start == a[a[i].kids[k]].start && b[a[i].kids[k]].end == a[a[i].kids[k]].end
    ensures part(b, i, n)
{
    if n > 0 {
        assert forall|k: int| 0 < k < n implies #[trigger] adj(b, i, k) by {
            assert(adj(a, i, k));
            assert(b[i].kids[k] == a[i].kids[k] && b[i].kids[k - 1] == a[i].kids[k - 1]);
        }
        assert(b[i].kids[0] == a[i].kids[0]);
        assert(b[i].kids[n - 1] == a[i].kids[n - 1]);
    }
}
pub proof fn lemma_set_end_links(a: Seq<ND>, p: int, end: int)
    requires links(a), 0 <= p < a.len(), a[p].start <= end
    ensures links(set_end(a, p, end))
{
    let b = set_end(a, p, end);
    assert forall|q: int, k: int| in_kids(b, q, k) implies #[trigger] child_ok(b, q, k) by { assert(in_kids(a, q, k) && child_ok(a, q, k)); }
    assert forall|q: int, k: int, l: int| #[trigger] in_kids(b, q, k) && #[trigger] in_kids(b, q, l) && k < l implies b[q].kids[k] < b[q].kids[l] by { assert(in_kids(a, q, k) && in_kids(a, q, l)); }
    assert forall|c: int| 0 < c < b.len() implies #[trigger] parent_ok(b, c) by { assert(parent_ok(a, c)); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] span_ok(b, i) by { assert(span_ok(a, i)); }
}
/// links after a child was added and the range of `p` changed
pub proof fn lemma_add_kid_links(a: Seq<ND>, b: Seq<ND>, p: int, id: int)
    requires links(a), 0 <= p < a.len(), id == a.len(), b.len() == a.len() + 1, b[p].kids == a[p].kids.push(id), b[p].parent == a[p].parent,
        b[p].start <= b[p].end, 0 <= b[p].start,
        forall|q: int| 0 <= q < a.len() && q != p ==> #[trigger] b[q] == a[q],
        b[id].parent == Some(p), b[id].kids.len() == 0, 0 <= b[id].start <= b[id].end
    ensures links(b)
{
    assert forall|q: int, k: int| in_kids(b, q, k) implies #[trigger] child_ok(b, q, k) by {
        if q == p {
            if k < a[p].kids.len() { assert(in_kids(a, p, k) && child_ok(a, p, k)); }
        } else if q < a.len() {
            assert(in_kids(a, q, k) && child_ok(a, q, k));
        }
    }
    assert forall|q: int, k: int, l: int| #[trigger] in_kids(b, q, k) && #[trigger] in_kids(b, q, l) && k < l implies b[q].kids[k] < b[q].kids[l] by {
        if q == p {
            assert(in_kids(a, p, k) && child_ok(a, p, k));
            if l < a[p].kids.len() { assert(in_kids(a, p, l)); }
        } else if q < a.len() {
            assert(in_kids(a, q, k) && in_kids(a, q, l));
        }
    }
    assert forall|c: int| 0 < c < b.len() implies #[trigger] parent_ok(b, c) by {
        if c == id {
            assert(b[p].kids[a[p].kids.len() as int] == id);
        } else {
            assert(parent_ok(a, c));
            assert(b[c].parent == a[c].parent);
            let q = a[c].parent->0;
            let x = choose|x: int| 0 <= x < a[q].kids.len() && a[q].kids[x] == c;
            assert(b[q].kids[x] == c);
        }
    }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] span_ok(b, i) by { if i != p && i != id { assert(span_ok(a, i)); assert(b[i] == a[i]); } }
}

impl TreeBuilder {
    pub open spec fn bv(self) -> BV { BV { ns: nds(self.nodes@), stack: ids(self.in_progress@), pos: self.pos.0 as int } }
    /// the builder holds an unfinished tree, and there is room for one more node
    pub open spec fn ok(self) -> bool { self.bv().inv() && self.nodes@.len() < u32::MAX }

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::leaf
    pub fn leaf(&mut self, ty: NodeType, len: TextUnit)
    «requires old(self).ok(), old(self).in_progress@.len() > 0, old(self).pos.0 + len.0 <= u32::MAX
     ensures final(self).bv() == old(self).bv().leaf(ty, len.0 as int), final(self).bv().inv(), final(self).nodes@.len() == old(self).nodes@.len() + 1,
        final(self).in_progress@.len() == old(self).in_progress@.len(), final(self).pos.0 == old(self).pos.0 + len.0»
    {
        «let ghost v = self.bv();
        proof { v.lemma_leaf(ty, len.0 as int); v.lemma_top(); }»
        let leaf = NodeData {
            ty, parent: None, children: Vec::new(), range: TextRange::from_len(self.pos, len),
        };
        «proof { assert(nd(leaf).kids =~= Seq::<int>::empty()); assert(nds(self.nodes@)[v.top()].end == v.pos); }»
        self.pos += len;
        let id = self.push_child(leaf);
        «proof { assert(nds(self.nodes@)[v.top()].end == v.pos); assert(nds(self.nodes@)[id.0 as int].start == v.pos); }»
        self.add_len(id);
        «proof {
            assert(self.bv().ns =~= v.leaf(ty, len.0 as int).ns);
            assert(self.bv().stack =~= v.stack);
        }»
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::start_internal
    pub fn start_internal(&mut self, ty: NodeType)
    «requires old(self).ok(), old(self).in_progress@.len() > 0 || old(self).nodes@.len() == 0 && old(self).pos.0 == 0
     ensures final(self).bv() == old(self).bv().open(ty), final(self).bv().inv(), final(self).nodes@.len() == old(self).nodes@.len() + 1,
        final(self).in_progress@.len() == old(self).in_progress@.len() + 1, final(self).pos == old(self).pos»
    {
        «let ghost v = self.bv();
        proof { v.lemma_open(ty); if v.stack.len() > 0 { v.lemma_top(); } }»
        let node = NodeData {
            ty, parent: None, children: Vec::new(), range: TextRange::from_len(self.pos, tu(0)),
        };
        «proof { assert(nd(node).kids =~= Seq::<int>::empty()); }»
        let id = if self.in_progress.is_empty() {
            self.new_node(node)
        } else {
            self.push_child(node)
        };
        self.in_progress.push(id)«;
        proof {
            assert(self.bv().ns =~= v.open(ty).ns);
            assert(self.bv().stack =~= v.open(ty).stack);
        }»
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::finish_internal
    pub fn finish_internal(&mut self)
    «requires old(self).bv().inv(), old(self).in_progress@.len() > 0
     ensures final(self).bv() == old(self).bv().close(), final(self).bv().inv(), final(self).nodes@.len() == old(self).nodes@.len(),
        final(self).in_progress@.len() == old(self).in_progress@.len() - 1, final(self).pos == old(self).pos»
    {
        «let ghost v = self.bv();
        proof {
            v.lemma_close();
            v.lemma_top();
        }»
        let id = self.in_progress.pop().unwrap();
        «proof { assert(ids(self.in_progress@) =~= v.stack.drop_last()); }»
        if !self.in_progress.is_empty() {
            self.add_len(id);
        }
        «proof {
            assert(self.bv().ns =~= v.close().ns);
            assert(self.bv().stack =~= v.close().stack);
        }»
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::new
    pub fn new() -> «(r:» TreeBuilder «) ensures r.ok(), r.nodes@.len() == 0, r.in_progress@.len() == 0, r.pos.0 == 0» {
        TreeBuilder {
            nodes: Vec::new(), in_progress: Vec::new(), pos: tu(0),
        }
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::finish
    pub fn finish(self) -> «(r:» Vec<NodeData> «)
        requires self.in_progress@.len() == 0, self.bv().inv(), self.nodes@.len() > 0
        ensures r@ == self.nodes@, tree_wf(nds(r@))» {
        «proof { self.bv().lemma_done(); }»
        vassert(self.in_progress.is_empty());
        self.nodes
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::new_node
    pub fn new_node(&mut self, data: NodeData) -> «(r:» NodeId «)
        requires old(self).nodes@.len() < u32::MAX
        ensures r.0 == old(self).nodes@.len(), final(self).nodes@ == old(self).nodes@.push(data), final(self).in_progress@ == old(self).in_progress@, final(self).pos == old(self).pos» {
        let id = NodeId(self.nodes.len() as u32);
        self.nodes.push(data);
        id
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::push_child
    pub fn push_child(&mut self, child: NodeData) -> «(r:» NodeId «)
        requires old(self).nodes@.len() < u32::MAX, old(self).in_progress@.len() > 0, old(self).in_progress@.last().0 < old(self).nodes@.len()
        ensures r.0 == old(self).nodes@.len(), final(self).in_progress@ == old(self).in_progress@, final(self).pos == old(self).pos,
            final(self).nodes@.len() == old(self).nodes@.len() + 1,
            nds(final(self).nodes@) =~= add_kid(nds(old(self).nodes@), old(self).in_progress@.last().0 as int, ND { parent: Some(old(self).in_progress@.last().0 as int), ..nd(child) })» {
        let mut child = child;
        child.parent = Some(self.current_id());
        let id = self.new_node(child);
        «let ghost mid = self.nodes@; let ghost p = old(self).in_progress@.last().0 as int;»
        self.current().children.push(id);
        «proof {
            assert(ids(self.nodes@[p].children@) =~= ids(mid[p].children@).push(id.0 as int));
            assert(nds(self.nodes@) =~= add_kid(nds(old(self).nodes@), p, ND { parent: Some(p), ..nd(child) }));
        }»
        id
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::add_len
    pub fn add_len(&mut self, child: NodeId)
    «requires child.0 < old(self).nodes@.len(), old(self).in_progress@.len() > 0, old(self).in_progress@.last().0 < old(self).nodes@.len(),
        old(self).nodes@[old(self).in_progress@.last().0 as int].range.end == old(self).nodes@[child.0 as int].range.start,
        old(self).nodes@[old(self).in_progress@.last().0 as int].range.wf(), old(self).nodes@[child.0 as int].range.wf()
     ensures final(self).in_progress@ == old(self).in_progress@, final(self).pos == old(self).pos, final(self).nodes@.len() == old(self).nodes@.len(),
        nds(final(self).nodes@) =~= set_end(nds(old(self).nodes@), old(self).in_progress@.last().0 as int, old(self).nodes@[child.0 as int].range.end.0 as int)»
    {
        let range = self.nodes[child.0 as usize].range;
        grow(&mut self.current().range, range);
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::current_id
    pub fn current_id(&self) -> «(r:» NodeId «) requires self.in_progress@.len() > 0 ensures r == self.in_progress@.last()» {
        *self.in_progress.last().unwrap()
    }
//@end

//@fn fall/tree/src/node/tree_builder.rs TreeBuilder::current
    pub fn current(&mut self) -> «(r:» &mut NodeData «)
        requires old(self).in_progress@.len() > 0, old(self).in_progress@.last().0 < old(self).nodes@.len()
        ensures *r == old(self).nodes@[old(self).in_progress@.last().0 as int],
            final(self).nodes@ == old(self).nodes@.update(old(self).in_progress@.last().0 as int, *final(r)),
            final(self).in_progress@ == old(self).in_progress@, final(self).pos == old(self).pos» {
        let NodeId(idx) = self.current_id();
        &mut self.nodes[idx as usize]
    }
//@end
}

//@fn fall/tree/src/node/tree_builder.rs grow
pub fn grow(left: &mut TextRange, right: TextRange)
«requires old(left).wf(), right.wf(), old(left).end == right.start
 ensures final(left).start == old(left).start, final(left).end == right.end, final(left).wf()»
{
    let start = left.start();
    vassert(left.end() == right.start());
    let end = right.end();
    *left = TextRange::from_to(start, end)
}
//@end

} // verus!
