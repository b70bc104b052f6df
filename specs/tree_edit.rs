// Structural edits: fall/tree/src/edit.rs
//@owner C11
//@rewrite prefix . to_string ( ) + & replacement + & suffix . to_cow ( ) ==> prefix . to_string ( ) . cat ( & replacement ) . cat ( suffix . to_cow ( ) )
verus! {

impl Str {
    /// `String + &str`
    #[verifier::external_body]
    pub fn cat(self, o: &Str) -> (r: Str) ensures r@ == self@ + o@ { unimplemented!() }
}

//@item fall/tree/src/edit.rs struct:FileEdit
pub struct FileEdit<'f> {
    pub file: &'f File,
    pub inserted: Vec<(Node<'f>, Str)>,
    pub replaced: Vec<(Node<'f>, Str)>,
    pub deleted: Vec<Node<'f>>,
}
//@end

/// the same node of the same file
pub open spec fn same(a: Node, b: Node) -> bool { key_of(*a.0.file) == key_of(*b.0.file) && a.0.id == b.0.id }
/// the first entry for `n`, from the `k`-th on
pub open spec fn first_from(s: Seq<(Node, Str)>, n: Node, k: int) -> Option<int>
    decreases s.len() - k
{
    if k < 0 || k >= s.len() { None } else if same(s[k].0, n) { Some(k) } else { first_from(s, n, k + 1) }
}
pub proof fn lemma_first(s: Seq<(Node, Str)>, n: Node, k: int)
    requires 0 <= k
    ensures match first_from(s, n, k) { Some(i) => k <= i < s.len() && same(s[i].0, n), None => true }
    decreases s.len() - k
{
    if k < s.len() && !same(s[k].0, n) { lemma_first(s, n, k + 1); }
}
pub open spec fn short(s: Seq<(Node, Str)>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).1@.len() <= u32::MAX }

impl<'f> FileEdit<'f> {
    pub open spec fn wf(self) -> bool { self.file.wf() && short(self.inserted@) && short(self.replaced@) }
    pub open spec fn t(self) -> Seq<u8> { self.file.imp.text@ }
    pub open spec fn deletes(self, n: Node) -> bool { exists|k: int| 0 <= k < self.deleted@.len() && same(#[trigger] self.deleted@[k], n) }
    /// C11: what the text of node `i` becomes: nothing if the node is deleted, the new text if it is replaced, and
    /// otherwise what its children become (its own text, for a leaf), followed by what is inserted after it
    pub open spec fn out(self, n: Node, i: int) -> Seq<u8>
        decreases n.t().len() - i, 1int, 0int
    {
        let x = at(n, i);
        if self.deletes(x) { Seq::empty() } else {
            match first_from(self.replaced@, x, 0) {
                Some(k) => self.replaced@[k].1@,
                None => {
                    let body = if n.t()[i].kids.len() == 0 { self.t().subrange(n.t()[i].start, n.t()[i].end) } else { self.out_kids(n, i, n.t()[i].kids.len() as int) };
                    match first_from(self.inserted@, x, 0) { Some(k) => body + self.inserted@[k].1@, None => body }
                }
            }
        }
    }
    /// the same for the first `k` children
    pub open spec fn out_kids(self, n: Node, i: int, k: int) -> Seq<u8>
        decreases n.t().len() - i, 0int, k
    {
        if k <= 0 || !(i < n.t()[i].kids[k - 1] < n.t().len()) { Seq::empty() } else { self.out_kids(n, i, k - 1) + self.out(n, n.t()[i].kids[k - 1]) }
    }

//@fn fall/tree/src/edit.rs FileEdit::new
    pub fn new(file: &File) -> «(r:» FileEdit «)
        ensures r.file == file, r.inserted@.len() == 0, r.replaced@.len() == 0, r.deleted@.len() == 0» {
        FileEdit {
            file,
            inserted: Vec::new(),
            replaced: Vec::new(),
            deleted: Vec::new(),
        }
    }
//@end

//@fn fall/tree/src/edit.rs FileEdit::replace
    pub fn replace(&mut self, node: Node<'f>, replacement: Node)
    «requires replacement.wf()
     ensures exists|s: Str| #[trigger] final(self).replaced@ == old(self).replaced@.push((node, s))
            && s@ == replacement.0.file.imp.text@.subrange(replacement.d().start, replacement.d().end),
        final(self).file == old(self).file, final(self).inserted == old(self).inserted, final(self).deleted == old(self).deleted»
    {
        self.replace_with_text(node, replacement.text().to_string())
    }
//@end

//@fn fall/tree/src/edit.rs FileEdit::replace_with_text
    pub fn replace_with_text(&mut self, node: Node<'f>, replacement: Str)
    «ensures final(self).replaced@ == old(self).replaced@.push((node, replacement)),
        final(self).file == old(self).file, final(self).inserted == old(self).inserted, final(self).deleted == old(self).deleted»
    {
        self.replaced.push((node, replacement))
    }
//@end

//@fn fall/tree/src/edit.rs FileEdit::replace_substring
    pub fn replace_substring(&mut self, range: TextRange, replacement: Str)
    «requires old(self).wf(), range.wf(), range.end.0 <= old(self).t().len(), bnd(old(self).t(), range.start.0 as int), bnd(old(self).t(), range.end.0 as int)
     // C11: the covering node is replaced by its text with exactly the substring changed
     ensures exists|n: Node, s: Str| #[trigger] final(self).replaced@ == old(self).replaced@.push((n, s))
            && n.wf() && n.0.file == old(self).file && n.d().start <= range.start.0 && range.end.0 <= n.d().end
            && s@ == old(self).t().subrange(n.d().start, range.start.0 as int) + replacement@ + old(self).t().subrange(range.end.0 as int, n.d().end),
        final(self).file == old(self).file, final(self).inserted == old(self).inserted, final(self).deleted == old(self).deleted»
    {
        let root = self.file.root();
        vassert(range.is_subrange_of(root.range()));
        let node = find_covering_node(root, range);
        let file_text = self.file.text();
        «let ghost t = self.t(); assert(node.t() == root.t()); proof { lemma_inside(node.t(), node.i()); assert(bnd(t, node.d().start) && bnd(t, node.d().end)); }»
        let prefix = file_text.slice(TextRange::from_to(node.range().start(), range.start()));
        let suffix = file_text.slice(TextRange::from_to(range.end(), node.range().end()));
        let new_text = prefix.to_string().cat(&replacement).cat(suffix.to_cow());
        self.replace_with_text(node, new_text);
    }
//@end

//@fn fall/tree/src/edit.rs FileEdit::delete
    pub fn delete(&mut self, node: Node<'f>)
    «ensures final(self).deleted@ == old(self).deleted@.push(node),
        final(self).file == old(self).file, final(self).inserted == old(self).inserted, final(self).replaced == old(self).replaced»
    {
        self.deleted.push(node)
    }
//@end

//@fn fall/tree/src/edit.rs FileEdit::insert_text_after
    pub fn insert_text_after(&mut self, anchor: Node<'f>, text: Str)
    «ensures final(self).inserted@ == old(self).inserted@.push((anchor, text)),
        final(self).file == old(self).file, final(self).replaced == old(self).replaced, final(self).deleted == old(self).deleted»
    {
        self.inserted.push((anchor, text))
    }
//@end

//@fn fall/tree/src/edit.rs FileEdit::into_text_edit
    pub fn into_text_edit(self) -> «(r:» TextEdit «)
        requires self.wf()
        // C11: applied to the text, the edit gives what the root becomes
        ensures ops_text(r.ops@, self.t()) == self.out(at(Node(NodeImpl { id: NodeId(0), file: self.file }), 0), 0),
            ops_ok(r.ops@, self.t().len() as int), ops_bnd(r.ops@, self.t()), ops_ordered(r.ops@)» {
        let mut edit_builder = TextEditBuilder::new(self.file.text());
        «let ghost b0 = edit_builder; let ghost t = self.t();
        proof { assert(ops_text(b0.segments@, t) =~= Seq::<u8>::empty()); assert(ops_bnd(b0.segments@, t)); }»
        self.text_edit_for_node(self.file.root(), &mut edit_builder);
        «let ghost b1 = edit_builder; let ghost o = self.out(at(Node(NodeImpl { id: NodeId(0), file: self.file }), 0), 0);
        proof { assert(sofar(b0, t, 0) =~= Seq::<u8>::empty()); assert(sofar(b1, t, t.len() as int) =~= o); assert(ops_bnd(b1.segments@, t)); }»
        let mut edit = edit_builder.build();
        «let ghost e1 = edit.ops@; proof { assert(ops_text(e1, t) =~= o); assert(ops_bnd(e1, t)); }»
        edit.ops.push(TextEditOp::Copy(TextRange::from_len(
            self.file.text().len(),
            tu(0),
        )));
        «proof {
            TextEditBuilder::lemma_push(e1, edit.ops@.last(), t);
            assert(edit.ops@ == e1.push(edit.ops@.last()));
            assert(ops_text(edit.ops@, t) =~= o);
            assert forall|i: int| 0 <= i < edit.ops@.len() implies op_ok(#[trigger] edit.ops@[i], t.len() as int) by { if i < e1.len() { assert(edit.ops@[i] == e1[i]); } }
            assert forall|i: int| 0 <= i < edit.ops@.len() implies match #[trigger] edit.ops@[i] {
                TextEditOp::Copy(r) => bnd(t, r.start.0 as int) && bnd(t, r.end.0 as int), TextEditOp::Insert(_) => true } by { if i < e1.len() { assert(edit.ops@[i] == e1[i]); } }
            assert forall|i: int, j: int| 0 <= i < j < edit.ops@.len() implies match ((#[trigger] edit.ops@[i]), (#[trigger] edit.ops@[j])) {
                (TextEditOp::Copy(a), TextEditOp::Copy(b)) => a.end.0 <= b.start.0, _ => true } by {
                assert(edit.ops@[i] == e1[i]); assert(op_ok(e1[i], t.len() as int));
                if j < e1.len() { assert(edit.ops@[j] == e1[j]); }
            }
        }»
        edit
    }
//@end

//@fn fall/tree/src/edit.rs FileEdit::text_edit_for_node
    pub fn text_edit_for_node(&self, node: Node<'f>, edit_builder: &mut TextEditBuilder)
    «requires self.wf(), node.wf(), node.0.file == self.file, old(edit_builder).wf(), old(edit_builder).last_offset.0 <= node.d().start,
        ops_bnd(old(edit_builder).segments@, self.t()), bnd(self.t(), old(edit_builder).last_offset.0 as int)
     ensures final(edit_builder).wf(), final(edit_builder).last_offset.0 <= node.d().end, final(edit_builder).text_len == old(edit_builder).text_len,
        ops_bnd(final(edit_builder).segments@, self.t()), bnd(self.t(), final(edit_builder).last_offset.0 as int),
        sofar(*final(edit_builder), self.t(), node.d().end) == sofar(*old(edit_builder), self.t(), node.d().start) + self.out(node, node.i())
     decreases node.t().len() - node.i()»
    {
        «let ghost t = self.t(); let ghost ns = node.t(); let ghost i = node.i(); let ghost b0 = *edit_builder; let ghost d = node.d();
        proof { lemma_inside(ns, i); assert(span_ok(ns, i)); assert(bnd(t, d.start) && bnd(t, d.end)); assert(at(node, i) == node); lemma_kids_below(ns, i); }»
        if {
            let mut r__0 «: Option<&Node<'f>>» = None;
            let mut i__0: usize = 0;
            while i__0 < self.deleted.len()
            «invariant_except_break r__0.is_none()
             invariant i__0 <= self.deleted@.len(), forall|k: int| 0 <= k < i__0 && r__0.is_none() ==> !same(#[trigger] self.deleted@[k], node)
             ensures r__0.is_some() == self.deletes(node)
             decreases self.deleted@.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let n = (*(&self.deleted[j__0]));
                if n == node {
                    r__0 = Some(&self.deleted[j__0]);
                    «assert(same(self.deleted@[j__0 as int], node));»
                    break;
                }
            }
            r__0
        }.is_some() {
            edit_builder.delete(node.range());
            «proof { lemma_sofar(b0, *edit_builder, t, d.start, Seq::empty(), d.end); }»
            return;
        }

        if let Some(r__1) = {
            let mut r__2 «: Option<&(Node<'f>, Str)>» = None;
            let mut i__1: usize = 0;
            while i__1 < self.replaced.len()
            «invariant_except_break r__2.is_none(), first_from(self.replaced@, node, 0) == first_from(self.replaced@, node, i__1 as int)
             invariant i__1 <= self.replaced@.len()
             ensures match r__2 { Some(x) => first_from(self.replaced@, node, 0).is_some() && *x == self.replaced@[first_from(self.replaced@, node, 0)->0], None => first_from(self.replaced@, node, 0).is_none() }
             decreases self.replaced@.len() - i__1»
            {
                let j__1 = i__1;
                i__1 = i__1 + 1;
                let n = (*(&self.replaced[j__1])).0;
                if n == node {
                    r__2 = Some(&self.replaced[j__1]);
                    break;
                }
            }
            r__2
        } {
            let replacement = &(*r__1).1;
            «proof { lemma_first(self.replaced@, node, 0); }»
            edit_builder.replace(node.range(), replacement.as_ref());
            «proof { lemma_sofar(b0, *edit_builder, t, d.start, replacement@, d.end); }»
            return;
        }

        {
            let mut it__2 = node.children();
            «proof { assert(self.out_kids(node, i, 0) =~= Seq::<u8>::empty()); if d.kids.len() > 0 { assert(done_at(ns, i)); assert(in_kids(ns, i, 0)); assert(child_ok(ns, i, 0)); }
                assert(sofar(b0, t, d.start) + self.out_kids(node, i, 0) =~= sofar(b0, t, d.start)); }»
            loop
            «invariant_except_break it__2.pos() <= d.kids.len(), edit_builder.last_offset.0 <= kid_start(ns, i, it__2.pos()),
                sofar(*edit_builder, t, kid_start(ns, i, it__2.pos())) == sofar(b0, t, d.start) + self.out_kids(node, i, it__2.pos())
             invariant it__2.of(node), self.wf(), node.wf(), node.0.file == self.file, t == self.t(), ns == node.t(), i == node.i(), d == node.d(),
                edit_builder.wf(), edit_builder.text_len == b0.text_len, ops_bnd(edit_builder.segments@, t), bnd(t, edit_builder.last_offset.0 as int),
                forall|k: int| 0 <= k < d.kids.len() ==> i < #[trigger] d.kids[k] < ns.len()
             ensures d.kids.len() > 0 ==> edit_builder.last_offset.0 <= d.end && sofar(*edit_builder, t, d.end) == sofar(b0, t, d.start) + self.out_kids(node, i, d.kids.len() as int),
                d.kids.len() == 0 ==> edit_builder.last_offset.0 <= d.start && sofar(*edit_builder, t, d.start) == sofar(b0, t, d.start)
             decreases d.kids.len() - it__2.pos()»
            {
                «let ghost k = it__2.pos(); let ghost bk = *edit_builder;»
                if let Some(x__2) = it__2.next() {
                    let child = x__2;
                    «proof { assert(child == at(node, d.kids[k])); lemma_kid_start(ns, i, k); }»
                    self.text_edit_for_node(child, edit_builder);
                    «proof {
                        self.lemma_same_out(child, node, child.i());
                        assert(self.out_kids(node, i, k + 1) == self.out_kids(node, i, k) + self.out(node, d.kids[k]));
                        assert(sofar(b0, t, d.start) + self.out_kids(node, i, k) + self.out(node, d.kids[k]) =~= sofar(b0, t, d.start) + self.out_kids(node, i, k + 1));
                    }»
                } else {
                    «proof { lemma_kid_start(ns, i, k); if k == 0 { assert(sofar(b0, t, d.start) + self.out_kids(node, i, 0) =~= sofar(b0, t, d.start)); } }»
                    break;
                }
            }
        }
        «let ghost b2 = *edit_builder;
        let ghost body = if d.kids.len() == 0 { t.subrange(d.start, d.end) } else { self.out_kids(node, i, d.kids.len() as int) };
        proof {
            if d.kids.len() == 0 { lemma_sofar_more(b2, t, d.start, d.end); }
            assert(sofar(b2, t, d.end) == sofar(b0, t, d.start) + body);
        }»

        if let Some(r__3) = {
            let mut r__4 «: Option<&(Node<'f>, Str)>» = None;
            let mut i__3: usize = 0;
            while i__3 < self.inserted.len()
            «invariant_except_break r__4.is_none(), first_from(self.inserted@, node, 0) == first_from(self.inserted@, node, i__3 as int)
             invariant i__3 <= self.inserted@.len()
             ensures match r__4 { Some(x) => first_from(self.inserted@, node, 0).is_some() && *x == self.inserted@[first_from(self.inserted@, node, 0)->0], None => first_from(self.inserted@, node, 0).is_none() }
             decreases self.inserted@.len() - i__3»
            {
                let j__3 = i__3;
                i__3 = i__3 + 1;
                let n = (*(&self.inserted[j__3])).0;
                if n == node {
                    r__4 = Some(&self.inserted[j__3]);
                    break;
                }
            }
            r__4
        } {
            let replacement = &(*r__3).1;
            «proof { lemma_first(self.inserted@, node, 0); }»
            edit_builder.insert(node.range().end(), replacement.as_ref());
            «proof {
                lemma_sofar(b2, *edit_builder, t, d.end, replacement@, d.end);
                assert(sofar(b0, t, d.start) + body + replacement@ =~= sofar(b0, t, d.start) + (body + replacement@));
            }»
        }
    }
//@end

    pub proof fn lemma_same_out(self, a: Node, b: Node, i: int)
        requires a.0.file == b.0.file
        ensures self.out(a, i) == self.out(b, i)
        decreases a.t().len() - i, 1int, 0int
    {
        assert(at(a, i) == at(b, i));
        self.lemma_same_out_kids(a, b, i, a.t()[i].kids.len() as int);
    }
    pub proof fn lemma_same_out_kids(self, a: Node, b: Node, i: int, k: int)
        requires a.0.file == b.0.file
        ensures self.out_kids(a, i, k) == self.out_kids(b, i, k)
        decreases a.t().len() - i, 0int, k
    {
        if k <= 0 || !(i < a.t()[i].kids[k - 1] < a.t().len()) {} else {
            self.lemma_same_out_kids(a, b, i, k - 1);
            self.lemma_same_out(a, b, a.t()[i].kids[k - 1]);
        }
    }
}

/// what the builder made of the text before `at`
pub open spec fn sofar(b: TextEditBuilder, t: Seq<u8>, at: int) -> Seq<u8> { b.out(t) + t.subrange(b.last_offset.0 as int, at) }
/// where the `k`-th child of `i` starts, and the last one ends
pub open spec fn kid_start(ns: Seq<ND>, i: int, k: int) -> int {
    if k < ns[i].kids.len() { ns[ns[i].kids[k]].start } else if k == 0 { ns[i].start } else { ns[i].end }
}
pub proof fn lemma_kid_start(ns: Seq<ND>, i: int, k: int)
    requires tree_wf(ns), 0 <= i < ns.len(), 0 <= k <= ns[i].kids.len()
    ensures k < ns[i].kids.len() ==> kid_start(ns, i, k + 1) == ns[ns[i].kids[k]].end && kid_start(ns, i, k) == ns[ns[i].kids[k]].start
{
    if k < ns[i].kids.len() {
        assert(done_at(ns, i));
        if k + 1 < ns[i].kids.len() { assert(adj(ns, i, k + 1)); }
    }
}
pub proof fn lemma_sofar(old: TextEditBuilder, new: TextEditBuilder, t: Seq<u8>, copied: int, ins: Seq<u8>, cursor: int)
    requires new.advanced(old, copied, ins, cursor), old.last_offset.0 <= copied <= t.len(), copied <= cursor <= t.len()
    ensures sofar(new, t, cursor) == sofar(old, t, copied) + ins
{
    assert(new.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, copied) + ins);
    assert(sofar(new, t, cursor) =~= sofar(old, t, copied) + ins);
}
pub proof fn lemma_sofar_more(b: TextEditBuilder, t: Seq<u8>, x: int, y: int)
    requires b.last_offset.0 <= x <= y <= t.len()
    ensures sofar(b, t, y) == sofar(b, t, x) + t.subrange(x, y)
{
    assert(sofar(b, t, y) =~= sofar(b, t, x) + t.subrange(x, y));
}

/// C11: without edits the text stays as it is
pub proof fn lemma_no_edits(e: FileEdit, n: Node, i: int)
    requires e.wf(), n.wf(), n.0.file == e.file, 0 <= i < n.t().len(), e.deleted@.len() == 0, e.replaced@.len() == 0, e.inserted@.len() == 0
    ensures e.out(n, i) == e.t().subrange(n.t()[i].start, n.t()[i].end)
    decreases n.t().len() - i, 1int, 0int
{
    assert(!e.deletes(at(n, i)));
    assert(done_at(n.t(), i));
    if n.t()[i].kids.len() > 0 { lemma_no_edits_kids(e, n, i, n.t()[i].kids.len() as int); lemma_kid_start(n.t(), i, n.t()[i].kids.len() - 1); }
}
pub proof fn lemma_no_edits_kids(e: FileEdit, n: Node, i: int, k: int)
    requires e.wf(), n.wf(), n.0.file == e.file, 0 <= i < n.t().len(), e.deleted@.len() == 0, e.replaced@.len() == 0, e.inserted@.len() == 0, 0 <= k <= n.t()[i].kids.len()
    ensures e.out_kids(n, i, k) == e.t().subrange(n.t()[i].start, if k == 0 { n.t()[i].start } else { n.t()[n.t()[i].kids[k - 1]].end })
    decreases n.t().len() - i, 0int, k
{
    let ns = n.t();
    lemma_kids_below(ns, i);
    lemma_inside(ns, i);
    assert(span_ok(ns, i));
    if k > 0 {
        lemma_no_edits_kids(e, n, i, k - 1);
        lemma_no_edits(e, n, ns[i].kids[k - 1]);
        assert(in_kids(ns, i, k - 1));
        lemma_kid_inside(ns, i, k - 1);
        assert(done_at(ns, i));
        if k > 1 { assert(adj(ns, i, k - 1)); }
        lemma_inside(ns, ns[i].kids[k - 1]);
        assert(e.out_kids(n, i, k) =~= e.t().subrange(ns[i].start, ns[ns[i].kids[k - 1]].end));
    } else {
        assert(e.out_kids(n, i, k) =~= e.t().subrange(ns[i].start, ns[i].start));
    }
}

} // verus!
