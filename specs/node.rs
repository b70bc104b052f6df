// Files and nodes: fall/tree/src/node/imp.rs, mod.rs
//@owner C09
//@iterfn children ancestors
//@rewrite & 'f super :: File ==> & 'f File
//@rewrite & 'i super :: File ==> & 'i File
//@rewrite :: std :: slice :: Iter < 'f , NodeId > ==> VIter < 'f , NodeId >
//@rewrite Option < Box < dyn Any + Sync + Send > > ==> Option < Opaque >
//@rewrite ( * const File , NodeId ) ==> ( FileKey , NodeId )
//@rewrite self . file as * const File ==> file_key ( self . file )
//@rewrite self . key ( ) == other . key ( ) ==> key_eq ( self . key ( ) , other . key ( ) )
//@rewrite self . file . imp [ self . id ] ==> * self . file . imp . index__node ( self . id )
verus! {

/// which file object a reference points to.  Assumption: two references whose files are equal as
/// values are references to the same file (nodes of copies of one file are not mixed).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct FileKey { x: usize }
pub uninterp spec fn key_of(f: File) -> FileKey;
#[verifier::external_body]
pub fn file_key(f: &File) -> (r: FileKey) ensures r == key_of(*f) { unimplemented!() }
#[verifier::external_body]
pub fn key_eq(a: (FileKey, NodeId), b: (FileKey, NodeId)) -> (r: bool) ensures r == (a == b) { unimplemented!() }

//@item fall/tree/src/node/imp.rs struct:FileImpl
pub struct FileImpl {
    pub lang: Language,
    pub metrics: Metrics,
    pub text: TextBuf,
    pub root: NodeId,
    pub nodes: Vec<NodeData>,
}
//@end

//@item fall/tree/src/node/mod.rs struct:File
pub struct File {
    pub imp: FileImpl,
    pub incremental_data: Option<Opaque>,
}
//@end

//@item fall/tree/src/node/imp.rs struct:NodeImpl
«#[derive(Clone, Copy)]»
pub struct NodeImpl<'f> {
    pub id: NodeId,
    pub file: &'f File,
}
//@end

//@item fall/tree/src/node/mod.rs struct:Node
«#[derive(Clone, Copy)]»
pub struct Node<'f>(pub NodeImpl<'f>);
//@end

//@item fall/tree/src/node/imp.rs struct:NodeChildren
pub struct NodeChildren<'f> {
    pub file: &'f File,
    pub inner: VIter<'f, NodeId>,
}
//@end

/// the ranges of all nodes start and end between characters of `t`
pub open spec fn spans_bounded(ns: Seq<ND>, t: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < ns.len() ==> bnd(t, (#[trigger] ns[i]).start) && bnd(t, ns[i].end)
}
/// a well-formed tree over the text `t`
pub open spec fn tree_over(ns: Seq<ND>, t: Seq<u8>) -> bool {
    tree_wf(ns) && ns[0].start == 0 && ns[0].end == t.len() && spans_bounded(ns, t)
}

impl File {
    pub open spec fn t(self) -> Seq<ND> { nds(self.imp.nodes@) }
    pub open spec fn wf(self) -> bool {
        tree_over(self.t(), self.imp.text@) && self.imp.root.0 == 0 && self.imp.text.wf() && self.imp.nodes@.len() <= u32::MAX
    }
}
impl<'f> NodeImpl<'f> {
    pub open spec fn wf(self) -> bool { self.file.wf() && self.id.0 < self.file.imp.nodes@.len() }
}
impl<'f> Node<'f> {
    pub open spec fn wf(self) -> bool { self.0.wf() }
    /// the tree the node belongs to
    pub open spec fn t(self) -> Seq<ND> { self.0.file.t() }
    pub open spec fn i(self) -> int { self.0.id.0 as int }
    pub open spec fn d(self) -> ND { self.t()[self.i()] }
    pub open spec fn empty(self) -> bool { self.d().start == self.d().end }
    pub open spec fn in_tree_of(self, o: Node<'f>) -> bool { self.0.file == o.0.file && self.wf() }
}
/// the node with number `i` in the tree of `n`
pub open spec fn at(n: Node, i: int) -> Node { Node(NodeImpl { id: NodeId(i as u32), file: n.0.file }) }

impl<'f> NodeChildren<'f> {
    /// iterates over the children of node `p` of file `f`
    pub open spec fn of(self, n: Node<'f>) -> bool {
        self.file == n.0.file && self.inner.wf() && ids(self.inner.s@) == n.d().kids && self.inner.s@.len() == n.d().kids.len()
    }
    pub open spec fn pos(self) -> int { self.inner.i as int }
}

impl<'f> vstd::std_specs::cmp::PartialEqSpecImpl for NodeImpl<'f> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &NodeImpl<'f>) -> bool { key_of(*self.file) == key_of(*other.file) && self.id == other.id }
}
impl<'f> PartialEq for NodeImpl<'f> {
//@fn fall/tree/src/node/imp.rs <NodeImpl as PartialEq>::eq
    fn eq(&self, other: &NodeImpl<'f>) -> bool {
        key_eq(self.key(), other.key())
    }
//@end
}
// derive(PartialEq) of Node
impl<'f> vstd::std_specs::cmp::PartialEqSpecImpl for Node<'f> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Node<'f>) -> bool { key_of(*self.0.file) == key_of(*other.0.file) && self.0.id == other.0.id }
}
impl<'f> PartialEq for Node<'f> {
    fn eq(&self, other: &Node<'f>) -> bool { self.0 == other.0 }
}

impl FileImpl {
//@fn fall/tree/src/node/imp.rs FileImpl::root
    pub fn root<'i, 'f: 'i>(&'i self, file: &'f File) -> «(r:» Node<'f> «) requires file.wf(), self.root.0 == 0 ensures r.wf(), r.i() == 0, r.0.file == file» {
        Node(NodeImpl { id: self.root, file })
    }
//@end
//@fn fall/tree/src/node/imp.rs FileImpl::text
    pub fn text(&self) -> «(r:» Text «) requires self.text.wf() ensures r.wf(), r.bounded(), r@ == self.text@, r.owned@ == self.text@, r.range.start.0 == 0» {
        self.text.as_text()
    }
//@end
//@fn fall/tree/src/node/imp.rs FileImpl::metrics
    pub fn metrics(&self) -> «(r:» &Metrics «) ensures r == self.metrics» {
        &self.metrics
    }
//@end
//@rewrite1 fn index ( ==> pub fn index__node (
//@rewrite1 Self :: Output ==> NodeData
//@fn fall/tree/src/node/imp.rs <FileImpl as Index<NodeId>>::index
    pub fn index__node(&self, index: NodeId) -> «(r:» &NodeData «) requires index.0 < self.nodes@.len() ensures *r == self.nodes@[index.0 as int]» {
        &self.nodes[index.0 as usize]
    }
//@end
}

//@fn fall/tree/src/node/imp.rs new_file
pub fn new_file(lang: Language, text: TextBuf, metrics: Metrics, builder: TreeBuilder) -> «(r:» FileImpl «)
    requires builder.in_progress@.len() == 0, builder.bv().inv(), builder.nodes@.len() > 0
    ensures r.lang == lang, r.metrics == metrics, r.text == text, r.root.0 == 0, r.nodes@ == builder.nodes@, tree_wf(nds(r.nodes@))» {
    FileImpl {
        lang, metrics, text, root: NodeId(0), nodes: builder.finish(),
    }
}
//@end

impl File {
//@fn fall/tree/src/node/mod.rs File::new
    pub fn new<T: Into<TextBuf>>(
        lang: Language,
        text: T,
        metrics: Metrics,
        incremental_data: Option<Opaque>,
        builder: TreeBuilder,
    ) -> «(r:» File «)
        requires builder.bv().inv(), builder.in_progress@.len() == 0, 0 < builder.nodes@.len() <= u32::MAX, call_requires(T::into, (text,))
        ensures r.t() == nds(builder.nodes@), r.incremental_data == incremental_data, r.imp.root.0 == 0, r.imp.lang == lang, r.imp.metrics == metrics,
            call_ensures(T::into, (text,), r.imp.text),
            // C01: the tree spans exactly the text, when the builder was fed exactly the text
            r.imp.text.wf() && r.imp.text@.len() == builder.pos.0 && spans_bounded(nds(builder.nodes@), r.imp.text@) ==> r.wf()» {
        «proof { builder.bv().lemma_done(); }»
        File {
            imp: new_file(lang, text.into(), metrics, builder), incremental_data,
        }
    }
//@end
//@fn fall/tree/src/node/mod.rs File::language
    pub fn language(&self) -> «(r:» &Language «) ensures *r == self.imp.lang» {
        &self.imp.lang
    }
//@end
//@fn fall/tree/src/node/mod.rs File::root
    pub fn root(&self) -> «(r:» Node «) requires self.wf() ensures r.wf(), r.i() == 0, r.0.file == self» {
        self.imp.root(self)
    }
//@end
//@fn fall/tree/src/node/mod.rs File::text
    pub fn text(&self) -> «(r:» Text «) requires self.wf() ensures r.wf(), r.bounded(), r@ == self.imp.text@, r.owned@ == self.imp.text@, r.range.start.0 == 0» {
        self.imp.text()
    }
//@end
//@fn fall/tree/src/node/mod.rs File::metrics
    pub fn metrics(&self) -> «(r:» &Metrics «) ensures *r == self.imp.metrics» {
        self.imp.metrics()
    }
//@end
}

impl<'f> NodeImpl<'f> {
//@fn fall/tree/src/node/imp.rs NodeImpl::ty
    pub fn ty(&self) -> «(r:» NodeType «) requires self.wf() ensures r == self.file.t()[self.id.0 as int].ty» {
        self.data().ty
    }
//@end
//@fn fall/tree/src/node/imp.rs NodeImpl::range
    pub fn range(&self) -> «(r:» TextRange «) requires self.wf()
        ensures r.start.0 == self.file.t()[self.id.0 as int].start, r.end.0 == self.file.t()[self.id.0 as int].end, r.wf(), r.end.0 <= self.file.imp.text@.len()» {
        «proof { lemma_inside(self.file.t(), self.id.0 as int); assert(span_ok(self.file.t(), self.id.0 as int)); }»
        self.data().range
    }
//@end
//@fn fall/tree/src/node/imp.rs NodeImpl::text
    pub fn text(&self) -> «(r:» Text<'f> «) requires self.wf()
        ensures r.wf(), r.bounded(), r@ == self.file.imp.text@.subrange(self.file.t()[self.id.0 as int].start, self.file.t()[self.id.0 as int].end)» {
        self.file.text().slice(self.range())
    }
//@end
//@fn fall/tree/src/node/imp.rs NodeImpl::file
    pub fn file(&self) -> «(r:» &'f File «) ensures r == self.file» { self.file }
//@end
//@fn fall/tree/src/node/imp.rs NodeImpl::parent
    pub fn parent(&self) -> «(r:» Option<Node<'f>> «) requires self.wf()
        ensures match r {
            Some(p) => p.0.file == self.file && p.wf() && self.file.t()[self.id.0 as int].parent == Some(p.i()) && p.i() < self.id.0,
            None => self.file.t()[self.id.0 as int].parent.is_none() && self.id.0 == 0,
        }» {
        «proof { lemma_parent(self.file.t(), self.id.0 as int); }»
        match self.data().parent {
            Some(v__0) => Some({
                let id = v__0;
                Node(NodeImpl { id, file: self.file })
            }),
            None => None
        }
    }
//@end
//@fn fall/tree/src/node/imp.rs NodeImpl::children
    pub fn children(&self) -> «(r:» NodeChildren<'f> «) requires self.wf() ensures r.of(Node(*self)), r.pos() == 0» {
        NodeChildren { file: self.file, inner: slice_iter(&self.data().children) }
    }
//@end
//@fn fall/tree/src/node/imp.rs NodeImpl::data
    pub fn data(&self) -> «(r:» &'f NodeData «) requires self.wf() ensures *r == self.file.imp.nodes@[self.id.0 as int], nd(*r) == self.file.t()[self.id.0 as int]» {
        & *self.file.imp.index__node(self.id)
    }
//@end
//@fn fall/tree/src/node/imp.rs NodeImpl::key
    pub fn key(&self) -> «(r:» (FileKey, NodeId) «) ensures r == (key_of(*self.file), self.id)» {
        (file_key(self.file), self.id)
    }
//@end
}

impl<'f> NodeChildren<'f> {
//@rewrite1 fn next ==> pub fn next
//@fn fall/tree/src/node/imp.rs <NodeChildren as Iterator>::next
    pub fn next(&mut self) -> «(r:» Option<Node<'f>> «)
        requires old(self).inner.wf()
        ensures final(self).file == old(self).file, final(self).inner.s == old(self).inner.s, final(self).inner.wf(),
            match r {
                Some(n) => old(self).pos() < old(self).inner.s@.len() && final(self).pos() == old(self).pos() + 1 && n.0.file == old(self).file
                    && n.0.id == old(self).inner.s@[old(self).pos()] && n.i() == ids(old(self).inner.s@)[old(self).pos()],
                None => old(self).pos() == old(self).inner.s@.len() && final(self).pos() == old(self).pos(),
            }» {
        match self.inner.next() {
            Some(v__0) => Some({
                let id = (*v__0);
                Node(NodeImpl { id, file: self.file })
            }),
            None => None
        }
    }
//@end
}

impl<'f> Node<'f> {
//@fn fall/tree/src/node/mod.rs Node::ty
    pub fn ty(&self) -> «(r:» NodeType «) requires self.wf() ensures r == self.d().ty» {
        self.0.ty()
    }
//@end
//@fn fall/tree/src/node/mod.rs Node::range
    pub fn range(&self) -> «(r:» TextRange «) requires self.wf() ensures r.start.0 == self.d().start, r.end.0 == self.d().end, r.wf(), r.end.0 <= self.0.file.imp.text@.len()» {
        self.0.range()
    }
//@end
//@fn fall/tree/src/node/mod.rs Node::text
    pub fn text(&self) -> «(r:» Text<'f> «) requires self.wf() ensures r.wf(), r.bounded(), r@ == self.0.file.imp.text@.subrange(self.d().start, self.d().end)» {
        self.0.text()
    }
//@end
//@fn fall/tree/src/node/mod.rs Node::file
    pub fn file(&self) -> «(r:» &'f File «) ensures r == self.0.file» { self.0.file() }
//@end
//@fn fall/tree/src/node/mod.rs Node::parent
    pub fn parent(&self) -> «(r:» Option<Node<'f>> «) requires self.wf()
        ensures match r {
            Some(p) => p.0.file == self.0.file && p.wf() && self.d().parent == Some(p.i()) && p.i() < self.i(),
            None => self.d().parent.is_none() && self.i() == 0,
        }» {
        self.0.parent()
    }
//@end
//@fn fall/tree/src/node/mod.rs Node::children
    pub fn children(&self) -> «(r:» NodeChildren<'f> «) requires self.wf() ensures r.of(*self), r.pos() == 0» {
        self.0.children()
    }
//@end
}

// ---- facts about finished trees -----------------------------------------------------------
pub proof fn lemma_parent(ns: Seq<ND>, i: int)
    requires tree_wf(ns), 0 <= i < ns.len()
    ensures i == 0 ==> ns[i].parent.is_none(), i > 0 ==> ns[i].parent.is_some() && 0 <= ns[i].parent->0 < i
{
    if i > 0 { assert(parent_ok(ns, i)); }
}
/// the children of a node lie inside it
pub proof fn lemma_kid_inside(ns: Seq<ND>, p: int, k: int)
    requires tree_wf(ns), in_kids(ns, p, k)
    ensures p < ns[p].kids[k] < ns.len(), ns[ns[p].kids[k]].parent == Some(p), ns[p].start <= ns[ns[p].kids[k]].start <= ns[ns[p].kids[k]].end <= ns[p].end
{
    assert(child_ok(ns, p, k));
    assert(span_ok(ns, ns[p].kids[k]));
    lemma_kids_ordered(ns, p, 0, k);
    lemma_kids_ordered(ns, p, k, ns[p].kids.len() - 1);
    assert(done_at(ns, p));
    assert(in_kids(ns, p, 0) && in_kids(ns, p, ns[p].kids.len() - 1));
    assert(child_ok(ns, p, 0) && child_ok(ns, p, ns[p].kids.len() - 1));
    assert(span_ok(ns, ns[p].kids[0]) && span_ok(ns, ns[p].kids[ns[p].kids.len() - 1]));
}
/// an earlier child ends before a later one starts
pub proof fn lemma_kids_ordered(ns: Seq<ND>, p: int, k: int, l: int)
    requires tree_wf(ns), in_kids(ns, p, k), in_kids(ns, p, l), k <= l
    ensures k < l ==> ns[ns[p].kids[k]].end <= ns[ns[p].kids[l]].start, ns[ns[p].kids[k]].start <= ns[ns[p].kids[l]].start, ns[ns[p].kids[k]].end <= ns[ns[p].kids[l]].end
    decreases l - k
{
    assert(done_at(ns, p));
    assert(tile(ns, p, ns[p].kids.len() as int));
    assert(child_ok(ns, p, k));
    assert(child_ok(ns, p, l));
    assert(span_ok(ns, ns[p].kids[k]) && span_ok(ns, ns[p].kids[l]));
    if k < l {
        assert(adj(ns, p, l));
        assert(in_kids(ns, p, l - 1));
        lemma_kids_ordered(ns, p, k, l - 1);
    }
}
/// every node lies inside the root
pub proof fn lemma_inside(ns: Seq<ND>, i: int)
    requires tree_wf(ns), 0 <= i < ns.len()
    ensures ns[0].start <= ns[i].start <= ns[i].end <= ns[0].end
    decreases i
{
    assert(span_ok(ns, i));
    if i > 0 {
        assert(parent_ok(ns, i));
        let p = ns[i].parent->0;
        let k = choose|k: int| 0 <= k < ns[p].kids.len() && ns[p].kids[k] == i;
        assert(in_kids(ns, p, k));
        lemma_kid_inside(ns, p, k);
        lemma_inside(ns, p);
    }
}

} // verus!
