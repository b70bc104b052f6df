// Extending a selection: fall/editor/src/extend_selection.rs
//@owner C19
//@iterfn find_leaf_at_offset ancestors
//@rewrite "\n" ==> str_newline ( )
verus! {

#[verifier::external_body]
pub fn str_newline() -> (r: &'static Str) ensures r@ == seq![10u8] { unimplemented!() }

//@item fall/tree/src/node_type.rs struct:NodeTypeInfo
pub struct NodeTypeInfo {
    pub name: &'static str,
    pub whitespace_like: bool,
}
//@end

/// what the language says about its node types
pub uninterp spec fn ws_like(l: Language, ty: NodeType) -> bool;
impl Language {
    #[verifier::external_body]
    pub fn node_type_info(&self, ty: NodeType) -> (r: NodeTypeInfo) ensures r.whitespace_like == ws_like(*self, ty) { unimplemented!() }
}

/// node `i` encloses a selection and is larger
pub open spec fn encloses(ns: Seq<ND>, i: int, s: int, e: int) -> bool {
    0 <= i < ns.len() && covers(ns, i, s, e) && (ns[i].start < s || e < ns[i].end)
}
/// the smallest of these
pub open spec fn next_larger(ns: Seq<ND>, i: int, s: int, e: int) -> bool {
    encloses(ns, i, s, e) && forall|a: int| #[trigger] encloses(ns, a, s, e) ==> covers(ns, a, ns[i].start, ns[i].end)
}
pub open spec fn range_of(ns: Seq<ND>, i: int, r: TextRange) -> bool { r.start.0 == ns[i].start && r.end.0 == ns[i].end }
pub open spec fn has_nl(t: Seq<u8>, a: int, b: int) -> bool { exists|i: int| occurs(t.subrange(a, b), seq![10u8], i) }
pub open spec fn first_nl(t: Seq<u8>, a: int, i: int) -> bool {
    occurs(t.subrange(a, t.len() as int), seq![10u8], i) && forall|j: int| occurs(t.subrange(a, t.len() as int), seq![10u8], j) ==> i <= j
}
/// a caret in whitespace at the end of a line, before the node `w` ends: the next line is selected
pub open spec fn at_line_end(t: Seq<u8>, ns: Seq<ND>, w: int, off: int) -> bool {
    has_nl(t, ns[w].start, ns[w].end) && !has_nl(t, off, ns[w].end) && has_nl(t, ns[w].end, t.len() as int)
}
pub open spec fn solid_leaf(l: Language, ns: Seq<ND>, i: int, off: int) -> bool { touching_leaf(ns, 0, i, off) && !ws_like(l, ns[i].ty) }
pub open spec fn ws_answer(t: Seq<u8>, ns: Seq<ND>, w: int, off: int, x: TextRange) -> bool {
    (!at_line_end(t, ns, w, off) ==> range_of(ns, w, x))
    && (at_line_end(t, ns, w, off) ==> exists|le: int, c: int| #[trigger] first_nl(t, ns[w].end, le) && #[trigger] covering(ns, 0, c, ns[w].end, ns[w].end + le) && range_of(ns, c, x))
}

pub proof fn lemma_range_eq(a: TextRange, b: TextRange)
    ensures (a == b) == (a.start.0 == b.start.0 && a.end.0 == b.end.0)
{}

/// the leaves the query returns are the leaves that touch the offset
pub proof fn lemma_leaves(file: &File, r: LeafAtOffset, off: int)
    requires file.wf(), leaf_answer(at0(file), off, r), 0 <= off <= file.t()[0].end
    ensures
        forall|j: int| 0 <= j < r.leaves().len() ==> (#[trigger] r.leaves()[j]).0.file == file && r.leaves()[j].wf() && touching_leaf(file.t(), 0, r.leaves()[j].i(), off),
        forall|i: int| #[trigger] touching_leaf(file.t(), 0, i, off) ==> exists|j: int| 0 <= j < r.leaves().len() && (#[trigger] r.leaves()[j]).i() == i,
        r.leaves().len() == 0 ==> file.t()[0].end == 0,
{
    let n = at0(file);
    let lv = r.leaves();
    assert forall|i: int| #[trigger] touching_leaf(file.t(), 0, i, off) implies exists|j: int| 0 <= j < r.leaves().len() && (#[trigger] r.leaves()[j]).i() == i by {
        lemma_leaf_answer(n, off, r, i);
        match r {
            LeafAtOffset::None => {}
            LeafAtOffset::Single(l) => { assert(lv[0].i() == i); }
            LeafAtOffset::Between(a, b) => { assert(lv[0] == a && lv[1] == b); if i == a.i() { assert(lv[0].i() == i); } else { assert(lv[1].i() == i); } }
        }
    }
}
impl<'f> Ancestors<'f> { pub open spec fn cur(self) -> Node<'f> { self.0->0 } }
pub open spec fn at0(file: &File) -> Node { Node(NodeImpl { id: NodeId(0), file: file }) }
/// every node that encloses the selection is above the covering node
pub proof fn lemma_enclosing(file: &File, node: Node, s: int, e: int)
    requires file.wf(), node.wf(), node.0.file == file, covering(file.t(), 0, node.i(), s, e), s < e
    ensures forall|a: int| #[trigger] encloses(file.t(), a, s, e) ==> anc(file.t(), a, node.i())
{
    let ns = file.t();
    assert forall|a: int| #[trigger] encloses(ns, a, s, e) implies anc(ns, a, node.i()) by { lemma_root(ns, a); assert(covers(ns, a, s, e)); }
}
/// every node is below the root
pub proof fn lemma_root(ns: Seq<ND>, a: int)
    requires tree_wf(ns), 0 <= a < ns.len()
    ensures anc(ns, 0, a)
    decreases a
{
    lemma_parent(ns, a);
    if a > 0 { lemma_root(ns, ns[a].parent->0); }
}

//@fn fall/editor/src/extend_selection.rs extend_selection
pub fn extend_selection(file: &File, range: TextRange) -> «(r:» Option<TextRange> «)
    requires file.wf(), range.wf(), range.end.0 <= file.t()[0].end,
        // a caret does not stand inside a character
        range.start.0 == range.end.0 ==> bnd(file.imp.text@, range.start.0 as int)
    ensures
        range.start.0 < range.end.0 ==> (match r {
            Some(x) => exists|i: int| #[trigger] next_larger(file.t(), i, range.start.0 as int, range.end.0 as int) && range_of(file.t(), i, x),
            None => range_of(file.t(), 0, range),
        }),
        range.start.0 == range.end.0 ==> (match r {
            Some(x) => if exists|i: int| #[trigger] solid_leaf(file.imp.lang, file.t(), i, range.start.0 as int) {
                    exists|i: int| #[trigger] solid_leaf(file.imp.lang, file.t(), i, range.start.0 as int) && range_of(file.t(), i, x)
                } else {
                    exists|w: int| #[trigger] touching_leaf(file.t(), 0, w, range.start.0 as int) && ws_answer(file.imp.text@, file.t(), w, range.start.0 as int, x)
                },
            None => file.t()[0].end == 0,
        })» {
    let lang = file.language();
    if range.is_empty() {
        let offset = range.start();
        let mut leaves = find_leaf_at_offset(file.root(), offset);
        «let ghost lv = leaves.leaves(); let ghost ns = file.t(); let ghost off = offset.0 as int;
        proof { lemma_leaves(file, leaves, off); }»
        if let Some(leaf) = {
            let mut r__0 «: Option<Node>» = None;
            let mut it__0 = leaves.clone();
            «let ghost k = 0int;
            assert(lv.skip(0) =~= lv);»
            loop
            «invariant_except_break r__0.is_none(), 0 <= k <= lv.len(), it__0.leaves() =~= lv.skip(k), forall|j: int| 0 <= j < k ==> ws_like(file.imp.lang, (#[trigger] lv[j]).d().ty)
             invariant file.wf(), *lang == file.imp.lang, forall|j: int| 0 <= j < lv.len() ==> (#[trigger] lv[j]).0.file == file && lv[j].wf()
             ensures match r__0 { Some(x) => lv.contains(x) && !ws_like(file.imp.lang, x.d().ty), None => forall|j: int| 0 <= j < lv.len() ==> ws_like(file.imp.lang, (#[trigger] lv[j]).d().ty) }
             decreases it__0.leaves().len()»
            {
                «let ghost was = it__0.leaves();»
                if let Some(x__0) = it__0.next() {
                    «proof { assert(was[0] == x__0); assert(lv[k] == x__0); assert(it__0.leaves() =~= was.skip(1)); assert(lv.skip(k).skip(1) =~= lv.skip(k + 1)); k = k + 1; }»
                    let node = x__0;
                    if !{
                        let node = node;
                        lang.node_type_info(node.ty()).whitespace_like
                    } {
                        r__0 = Some(x__0);
                        break;
                    }
                } else {
                    break;
                }
            }
            r__0
        } {
            «proof { assert(solid_leaf(file.imp.lang, ns, leaf.i(), off)); }»
            return Some(leaf.range());
        }
        «proof {
            assert forall|i: int| !#[trigger] solid_leaf(file.imp.lang, ns, i, off) by {
                if touching_leaf(ns, 0, i, off) { let j = choose|j: int| 0 <= j < lv.len() && (#[trigger] lv[j]).i() == i; assert(ws_like(file.imp.lang, lv[j].d().ty)); }
            }
        }»
        let ws = leaves.next()?;
        «proof { assert(lv[0] == ws); lemma_inside(ns, ws.i()); assert(touching_leaf(ns, 0, ws.i(), off)); }
        let ghost t = file.imp.text@; let ghost w = ws.i();
        proof { assert(bnd(t, ns[w].end)); }»
        let ws_suffix = file.text().slice(TextRange::from_to(offset, ws.range().end()));
        if ws.text().contains(str_newline()) && !ws_suffix.contains(str_newline()) {
            if let Some(line_end) = file.text().slice(TextSuffix::from(ws.range().end())).find(str_newline()) {
                let range = TextRange::from_len(ws.range().end(), line_end);
                «proof { assert(first_nl(t, ns[w].end, line_end.0 as int)); assert(at_line_end(t, ns, w, off)); }»
                return Some(find_covering_node(file.root(), range).range());
            }
        }
        «proof {
            assert(!at_line_end(t, ns, w, off));
        }»
        return Some(ws.range());
    };
    let node = find_covering_node(file.root(), range);
    «let ghost ns = file.t(); let ghost s = range.start.0 as int; let ghost e = range.end.0 as int; let ghost last = node;
    proof { lemma_enclosing(file, node, s, e); }»
    match {
        let mut r__1 «: Option<Node>» = None;
        let mut it__1 = ancestors(node);
        let mut skipping__2 = true;
        loop
        «invariant_except_break r__1.is_none(), skipping__2,
            it__1.0.is_some() ==> it__1.cur().0.file == file && covers(ns, it__1.cur().i(), s, e)
                && forall|a: int| #[trigger] encloses(ns, a, s, e) ==> anc(ns, a, it__1.cur().i()),
            it__1.0.is_none() ==> range_of(ns, 0, range)
         invariant it__1.wf(), file.wf(), ns == file.t(), s == range.start.0, e == range.end.0
         ensures match r__1 { Some(x) => x.wf() && x.0.file == file && next_larger(ns, x.i(), s, e), None => range_of(ns, 0, range) }
         decreases (if it__1.0.is_some() { it__1.cur().i() + 1 } else { 0 })»
        {
            «let ghost was = it__1;»
            if let Some(x__1) = it__1.next() {
                «proof {
                    lemma_parent(ns, x__1.i());
                    if it__1.0.is_some() { let p = it__1.cur(); assert(p.i() != x__1.i()); assert(anc(ns, p.i(), p.i())); assert(anc(ns, p.i(), x__1.i())); lemma_anc_range(ns, p.i(), x__1.i()); }
                    if encloses(ns, x__1.i(), s, e) {
                        assert forall|a: int| #[trigger] encloses(ns, a, s, e) implies covers(ns, a, ns[x__1.i()].start, ns[x__1.i()].end) by { lemma_anc_range(ns, a, x__1.i()); }
                        assert(next_larger(ns, x__1.i(), s, e));
                    } else {
                        assert(range_of(ns, x__1.i(), range));
                        assert forall|a: int| #[trigger] encloses(ns, a, s, e) implies it__1.0.is_some() && anc(ns, a, it__1.cur().i()) by { assert(anc(ns, a, x__1.i())); assert(a != x__1.i()); }
                        if it__1.0.is_none() { assert(x__1.i() == 0); }
                    }
                }»
                if skipping__2 {
                    let n = &x__1;
                    if !(n.range() == range) {
                        skipping__2 = false;
                    }
                }
                if !skipping__2 {
                    r__1 = Some(x__1);
                    break;
                }
            } else {
                break;
            }
        }
        r__1
    } {
        None => None,
        Some(parent) => Some(parent.range()),
    }
}
//@end

} // verus!
