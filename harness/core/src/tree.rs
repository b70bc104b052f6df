// C09, C10, C11, C16, C19: arbitrary trees made through TreeBuilder, compared with a plain model.
use crate::common::*;
use crate::text::r;
use fall_editor::EditorFileImpl;
use fall_tree::search::{self, LeafAtOffset};
use fall_tree::visitor::{process_node, process_subtree_bottom_up, visitor};
use fall_tree::{tu, walk_tree, AstChildren, AstNode, File, FileEdit, Language, LanguageImpl, Metrics, Node, NodeType, NodeTypeInfo, Text, TextEdit, TextRange, TreeBuilder};
use std::any::Any;
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub enum M {
    /// type, text
    Leaf(u32, String),
    Inner(u32, Vec<M>),
}

pub const WS: u32 = 1;

struct TreeLang {
    plan: Mutex<Option<M>>,
}

fn drive(m: &M, b: &mut TreeBuilder) {
    match m {
        M::Leaf(ty, s) => b.leaf(NodeType(*ty), tu(s.len() as u32)),
        M::Inner(ty, cs) => {
            b.start_internal(NodeType(*ty));
            for c in cs {
                drive(c, b);
            }
            b.finish_internal();
        }
    }
}

impl LanguageImpl for TreeLang {
    fn parse(&self, _: Text, _: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        drive(self.plan.lock().unwrap().as_ref().unwrap(), builder);
        None
    }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, t: Text, m: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        self.parse(t, m, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        NodeTypeInfo { name: NAMES[ty.0 as usize % NAMES.len()], whitespace_like: ty.0 == WS }
    }
}
const NAMES: &[&str] = &["error", "ws", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9"];

pub fn text_of(m: &M) -> String {
    match m {
        M::Leaf(_, s) => s.clone(),
        M::Inner(_, cs) => cs.iter().map(text_of).collect(),
    }
}

pub fn make_file(m: &M) -> File {
    let text = text_of(m);
    Language::new(TreeLang { plan: Mutex::new(Some(m.clone())) }).parse(text)
}

const LEAF_TEXTS: &[&str] = &["a", "bb", "c", ",", " ", "\n", "  ", " \n ", "é", "xyz", "", "\n\n", "\t"];

fn gen_tree(g: &mut Rng, budget: &mut usize, depth: usize, root: bool) -> M {
    if !root && (depth == 0 || *budget == 0 || g.chance(2, 5)) {
        let s = *g.pick(LEAF_TEXTS);
        let ty = if !s.is_empty() && s.trim().is_empty() { WS } else { 2 + g.below(4) as u32 };
        return M::Leaf(ty, s.to_string());
    }
    let n = if root { g.range(0, 5) } else { g.below(4) };
    let mut cs = vec![];
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        cs.push(gen_tree(g, budget, depth - 1, false));
    }
    let ty = if g.chance(1, 12) { 0 } else { 5 + g.below(5) as u32 };
    M::Inner(ty, cs)
}

pub fn gen(g: &mut Rng) -> M {
    let mut b = g.range(0, 18);
    gen_tree(g, &mut b, 5, true)
}

/// the model, flattened in preorder
pub struct Flat {
    pub ty: u32,
    pub start: usize,
    pub end: usize,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
}

pub fn flat(m: &M) -> Vec<Flat> {
    fn go(m: &M, at: &mut usize, parent: Option<usize>, out: &mut Vec<Flat>) -> usize {
        let id = out.len();
        let start = *at;
        match m {
            M::Leaf(ty, s) => {
                *at += s.len();
                out.push(Flat { ty: *ty, start, end: *at, parent, children: vec![] });
            }
            M::Inner(ty, cs) => {
                out.push(Flat { ty: *ty, start, end: start, parent, children: vec![] });
                for c in cs {
                    let k = go(c, at, Some(id), out);
                    out[id].children.push(k);
                }
                out[id].end = *at;
            }
        }
        id
    }
    let mut out = vec![];
    go(m, &mut 0, None, &mut out);
    out
}

/// nodes of the file in preorder, found through `children` alone
pub fn nodes<'f>(root: Node<'f>) -> Vec<Node<'f>> {
    let mut out = vec![];
    fn go<'f>(n: Node<'f>, out: &mut Vec<Node<'f>>, limit: &mut usize) {
        if *limit == 0 {
            return;
        }
        *limit -= 1;
        out.push(n);
        for c in n.children() {
            go(c, out, limit);
        }
    }
    go(root, &mut out, &mut 100_000);
    out
}

fn postorder(f: &[Flat], n: usize) -> Vec<usize> {
    let mut out = vec![];
    for &c in &f[n].children {
        out.extend(postorder(f, c));
    }
    out.push(n);
    out
}

fn preorder(f: &[Flat], n: usize) -> Vec<usize> {
    let mut out = vec![n];
    for &c in &f[n].children {
        out.extend(preorder(f, c));
    }
    out
}

fn idx(ns: &[Node], n: Node) -> Result<usize, String> {
    ns.iter().position(|&x| x == n).ok_or_else(|| format!("an unknown node {:?} {:?}", n, n.range()))
}

fn idxs(ns: &[Node], xs: Vec<Node>) -> Result<Vec<usize>, String> {
    xs.into_iter().map(|n| idx(ns, n)).collect()
}

pub fn check_shape(m: &M, file: &File) -> Result<(Vec<Flat>, usize), String> {
    let f = flat(m);
    let ns = nodes(file.root());
    same!(ns.len(), f.len(), "number of nodes");
    let text = text_of(m);
    for (k, n) in ns.iter().enumerate() {
        same!(n.ty().0, f[k].ty, "type of node {}", k);
        same!(n.range(), r(f[k].start, f[k].end), "range of node {}", k);
        same!(n.text().to_string(), text[f[k].start..f[k].end], "text of node {}", k);
        same!(idxs(&ns, n.children().collect())?, f[k].children, "children of node {}", k);
    }
    for (i, a) in ns.iter().enumerate() {
        for (j, b) in ns.iter().enumerate() {
            same!(a == b, i == j, "node {} == node {}", i, j);
        }
    }
    Ok((f, ns.len()))
}

fn check_links(m: M) -> Result<bool, String> {
    let file = make_file(&m);
    let (f, n) = check_shape(&m, &file)?;
    let ns = nodes(file.root());
    for k in 0..n {
        let node = ns[k];
        same!(node.parent().map(|p| idx(&ns, p)), f[k].parent.map(Ok), "parent of node {}", k);
        // ancestors
        let mut want = vec![];
        let mut a = Some(k);
        while let Some(x) = a {
            want.push(x);
            a = f[x].parent;
        }
        same!(idxs(&ns, search::ancestors(node).take(1000).collect())?, want, "ancestors of node {}", k);
        // siblings
        let (l, rr) = match f[k].parent {
            None => (None, None),
            Some(p) => {
                let cs = &f[p].children;
                let i = cs.iter().position(|&c| c == k).unwrap();
                (if i > 0 { Some(cs[i - 1]) } else { None }, cs.get(i + 1).cloned())
            }
        };
        same!(search::sibling(node, search::Direction::Left).map(|p| idx(&ns, p)), l.map(Ok), "left sibling of node {}", k);
        same!(search::sibling(node, search::Direction::Right).map(|p| idx(&ns, p)), rr.map(Ok), "right sibling of node {}", k);
        for ty in 0..10 {
            let want: Vec<usize> = f[k].children.iter().cloned().filter(|&c| f[c].ty == ty).collect();
            same!(idxs(&ns, search::children_of_type(node, NodeType(ty)).collect())?, want, "children of type {} of node {}", ty, k);
            same!(search::child_of_type(node, NodeType(ty)).map(|c| idx(&ns, c)), want.first().cloned().map(Ok), "child of type {} of node {}", ty, k);
            if want.is_empty() {
                must_panic("child_of_type_exn without such a child", || search::child_of_type_exn(node, NodeType(ty)))?;
            } else {
                same!(idx(&ns, search::child_of_type_exn(node, NodeType(ty)))?, want[0], "child_of_type_exn");
            }
        }
        same!(search::is_leaf(node), f[k].children.is_empty() && f[k].end > f[k].start, "is_leaf of node {}", k);
    }
    // nodes of another file are other nodes
    let file2 = make_file(&m);
    same!(file.root() == file2.root(), false, "roots of two files");
    Ok(n > 2)
}

fn nonempty_leaves(f: &[Flat], n: usize) -> Vec<usize> {
    preorder(f, n).into_iter().filter(|&k| f[k].children.is_empty() && f[k].end > f[k].start).collect()
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum L {
    No,
    One(usize),
    Two(usize, usize),
}

pub fn leaf_at(f: &[Flat], n: usize, o: usize) -> L {
    let touching: Vec<usize> = nonempty_leaves(f, n).into_iter().filter(|&k| f[k].start <= o && o <= f[k].end).collect();
    match touching.len() {
        0 => L::No,
        1 => L::One(touching[0]),
        2 => L::Two(touching[0], touching[1]),
        _ => unreachable!(),
    }
}

pub fn anc(f: &[Flat], n: usize) -> Vec<usize> {
    let mut out = vec![n];
    let mut k = n;
    while let Some(p) = f[k].parent {
        out.push(p);
        k = p;
    }
    out
}

pub fn covering(f: &[Flat], a: usize, b: usize) -> usize {
    let l = match leaf_at(f, 0, a) {
        L::No => return 0,
        L::One(x) => x,
        L::Two(_, y) => y,
    };
    let rr = match leaf_at(f, 0, b) {
        L::No => return 0,
        L::One(x) => x,
        L::Two(x, _) => x,
    };
    let ra = anc(f, rr);
    anc(f, l).into_iter().find(|x| ra.contains(x)).unwrap()
}

fn check_offsets(m: M) -> Result<bool, String> {
    let file = make_file(&m);
    let (f, n) = check_shape(&m, &file)?;
    let ns = nodes(file.root());
    for k in 0..n {
        for o in f[k].start..=f[k].end {
            let want = leaf_at(&f, k, o);
            let res = search::find_leaf_at_offset(ns[k], tu(o as u32));
            let got = match res {
                LeafAtOffset::None => L::No,
                LeafAtOffset::Single(x) => L::One(idx(&ns, x)?),
                LeafAtOffset::Between(x, y) => L::Two(idx(&ns, x)?, idx(&ns, y)?),
            };
            same!(got, want, "leaf at offset {} of node {}", o, k);
            let (wl, wr, wi) = match want {
                L::No => (None, None, vec![]),
                L::One(x) => (Some(Ok(x)), Some(Ok(x)), vec![x]),
                L::Two(x, y) => (Some(Ok(x)), Some(Ok(y)), vec![x, y]),
            };
            same!(res.left_biased().map(|x| idx(&ns, x)), wl, "left biased leaf");
            same!(res.right_biased().map(|x| idx(&ns, x)), wr, "right biased leaf");
            same!(idxs(&ns, res.take(10).collect())?, wi, "leaves as an iterator");
        }
        if f[k].start > 0 {
            must_panic("leaf query before the node", || search::find_leaf_at_offset(ns[k], tu(f[k].start as u32 - 1)))?;
        }
        must_panic("leaf query after the node", || search::find_leaf_at_offset(ns[k], tu(f[k].end as u32 + 1)))?;
    }
    let len = f[0].end;
    for a in 0..=len {
        for b in a..=len {
            let got = idx(&ns, search::find_covering_node(file.root(), r(a, b)))?;
            if !(f[got].start <= a && b <= f[got].end) {
                return Err(format!("covering node of [{},{}) does not contain it", a, b));
            }
            same!(got, covering(&f, a, b), "covering node of [{},{})", a, b);
        }
    }
    must_panic("covering node of a range outside the root", || search::find_covering_node(file.root(), r(0, len + 1)))?;
    Ok(n > 2)
}

#[derive(Debug, Clone)]
enum FE {
    Del(usize),
    Rep(usize, String),
    RepNode(usize, usize),
    Ins(usize, String),
    Sub(usize, usize, String),
}

fn apply_fe(f: &[Flat], text: &str, n: usize, ops: &[FE], out: &mut String) {
    for o in ops {
        match o {
            FE::Del(k) if *k == n => return,
            _ => {}
        }
    }
    for o in ops {
        match o {
            FE::Rep(k, s) if *k == n => return out.push_str(s),
            FE::RepNode(k, j) if *k == n => return out.push_str(&text[f[*j].start..f[*j].end]),
            _ => {}
        }
    }
    if f[n].children.is_empty() {
        out.push_str(&text[f[n].start..f[n].end]);
    }
    for &c in &f[n].children {
        apply_fe(f, text, c, ops, out);
    }
    for o in ops {
        match o {
            FE::Ins(k, s) if *k == n => out.push_str(s),
            _ => {}
        }
    }
}

fn check_edit(m: M, ops: Vec<FE>) -> Result<bool, String> {
    let file = make_file(&m);
    let (f, _) = check_shape(&m, &file)?;
    let ns = nodes(file.root());
    let text = text_of(&m);
    let mut e = FileEdit::new(&file);
    let mut sub = None;
    for o in &ops {
        match o {
            FE::Del(k) => e.delete(ns[*k]),
            FE::Rep(k, s) => e.replace_with_text(ns[*k], s.clone()),
            FE::RepNode(k, j) => e.replace(ns[*k], ns[*j]),
            FE::Ins(k, s) => e.insert_text_after(ns[*k], s.clone()),
            FE::Sub(a, b, s) => {
                e.replace_substring(r(*a, *b), s.clone());
                sub = Some((*a, *b, s.clone()));
            }
        }
    }
    let want = match sub {
        Some((a, b, s)) => format!("{}{}{}", &text[..a], s, &text[b..]),
        None => {
            let mut w = String::new();
            apply_fe(&f, &text, 0, &ops, &mut w);
            w
        }
    };
    let edit = e.into_text_edit();
    same!(edit.apply(file.text()).as_text().to_string(), want, "edited text");
    Ok(!ops.is_empty())
}

macro_rules! ast {
    ($name:ident, $($ty:expr),*) => {
        #[derive(Clone, Copy)]
        struct $name<'f>(Node<'f>);
        impl<'f> AstNode<'f> for $name<'f> {
            fn wrap(node: Node<'f>) -> Option<Self> {
                if [$($ty),*].contains(&node.ty().0) { Some($name(node)) } else { None }
            }
            fn node(self) -> Node<'f> { self.0 }
        }
    };
}
ast!(A5, 5u32);
ast!(A67, 6u32, 7u32);
ast!(A2, 2u32);

fn check_walks(m: M) -> Result<bool, String> {
    let file = make_file(&m);
    let (f, n) = check_shape(&m, &file)?;
    let ns = nodes(file.root());
    for k in 0..n {
        let post = postorder(&f, k);
        let pre = preorder(&f, k);
        let mut got = vec![];
        search::traversal::bottom_up(ns[k], |x| got.push(x));
        same!(idxs(&ns, got)?, post, "bottom_up from node {}", k);
        let got: std::cell::RefCell<Vec<(NodeType, TextRange)>> = Default::default();
        walk_tree(ns[k], |x| got.borrow_mut().push((x.ty(), x.range())));
        same!(got.into_inner(), pre.iter().map(|&x| (ns[x].ty(), ns[x].range())).collect::<Vec<_>>(), "walk_tree from node {}", k);
        same!(idxs(&ns, search::subtree(ns[k]).take(100_000).collect())?, post, "subtree of node {}", k);
        let of = |tys: &[u32]| post.iter().cloned().filter(|&x| tys.contains(&f[x].ty)).collect::<Vec<_>>();
        for ty in 0..10 {
            same!(idxs(&ns, search::descendants_of_type(ns[k], NodeType(ty)))?, of(&[ty]), "descendants of type {} of node {}", ty, k);
        }
        same!(idxs(&ns, search::ast::descendants_of_type::<A67>(ns[k]).into_iter().map(|x| x.node()).collect())?, of(&[6, 7]), "ast descendants");
        let kids = |tys: &[u32]| f[k].children.iter().cloned().filter(|&x| tys.contains(&f[x].ty)).collect::<Vec<_>>();
        let ch: AstChildren<A67> = search::ast::children_of_type(ns[k]);
        same!(idxs(&ns, ch.map(|x| x.node()).collect())?, kids(&[6, 7]), "ast children");
        let up = |tys: &[u32]| anc(&f, k).into_iter().find(|&x| tys.contains(&f[x].ty));
        same!(search::ast::ancestor::<A67>(ns[k]).map(|x| idx(&ns, x.node())), up(&[6, 7]).map(Ok), "ast ancestor");
        // several callbacks, some for the same node type
        let v = visitor(Vec::new())
            .visit::<A5, _>(|x, acc: &mut Vec<(u8, Node)>| acc.push((0, x.node())))
            .visit_nodes(&[NodeType(6), NodeType(2)], |x, acc| acc.push((1, x)))
            .visit::<A67, _>(|x, acc| acc.push((2, x.node())))
            .visit_nodes(&[NodeType(5), NodeType(6), NodeType(5)], |x, acc| acc.push((3, x)))
            .visit_nodes(&[], |x, acc| acc.push((4, x)))
            .visit::<A2, _>(|x, acc| acc.push((5, x.node())));
        let calls = |x: usize| -> Vec<(u8, usize)> {
            let t = f[x].ty;
            let mut w = vec![];
            for (c, tys) in [(0u8, &[5u32][..]), (1, &[6, 2]), (2, &[6, 7]), (3, &[5, 6]), (4, &[]), (5, &[2])].iter() {
                if tys.contains(&t) {
                    w.push((*c, x));
                }
            }
            w
        };
        let got = process_subtree_bottom_up(ns[k], v);
        let got: Result<Vec<(u8, usize)>, String> = got.into_iter().map(|(c, x)| Ok((c, idx(&ns, x)?))).collect();
        same!(got?, post.iter().flat_map(|&x| calls(x)).collect::<Vec<_>>(), "visitor calls below node {}", k);
        let v = visitor(Vec::new())
            .visit_nodes(&[NodeType(6), NodeType(2)], |x, acc: &mut Vec<(u8, Node)>| acc.push((1, x)))
            .visit::<A67, _>(|x, acc| acc.push((2, x.node())));
        let got: Result<Vec<(u8, usize)>, String> = process_node(ns[k], v).into_iter().map(|(c, x)| Ok((c, idx(&ns, x)?))).collect();
        same!(got?, calls(k).into_iter().filter(|c| c.0 == 1 || c.0 == 2).collect::<Vec<_>>(), "visitor calls on node {}", k);
        for o in f[k].start..=f[k].end {
            let find = |leaf: usize| anc(&f, leaf).into_iter().find(|&x| [6u32, 7].contains(&f[x].ty));
            let want = match leaf_at(&f, k, o) {
                L::No => None,
                L::One(x) => find(x),
                L::Two(x, y) => find(x).or_else(|| find(y)),
            };
            same!(search::ast::node_at_offset::<A67>(ns[k], tu(o as u32)).map(|x| idx(&ns, x.node())), want.map(Ok), "ast node at offset {}", o);
        }
    }
    Ok(n > 2)
}

struct Ed(File);
impl EditorFileImpl for Ed {
    fn parse(_: &str) -> Self {
        unimplemented!()
    }
    fn edit(&self, _: &TextEdit) -> Self {
        unimplemented!()
    }
    fn syntax_tree(&self) -> String {
        String::new()
    }
    fn file(&self) -> &File {
        &self.0
    }
}

fn check_extend(m: M) -> Result<bool, String> {
    let ed = Ed(make_file(&m));
    let (f, n) = check_shape(&m, ed.file())?;
    let len = f[0].end;
    for a in 0..=len {
        for b in a + 1..=len {
            let got = ed.extend_selection(r(a, b));
            let c = covering(&f, a, b);
            let want = anc(&f, c).into_iter().find(|&x| (f[x].start, f[x].end) != (a, b)).map(|x| r(f[x].start, f[x].end));
            same!(got, want, "extending [{},{})", a, b);
            if let Some(w) = got {
                if !(w.start().utf8_len() <= a && b <= w.end().utf8_len() && w != r(a, b)) {
                    return Err(format!("extending [{},{}) does not grow it: {:?}", a, b, w));
                }
            }
            same!(got.is_none(), (a, b) == (0, len), "nothing to extend [{},{}) to", a, b);
        }
        let got = ed.extend_selection(r(a, a));
        let touching = match leaf_at(&f, 0, a) {
            L::No => vec![],
            L::One(x) => vec![x],
            L::Two(x, y) => vec![x, y],
        };
        if touching.is_empty() {
            same!(got, None, "caret in an empty file");
        } else if let Some(&x) = touching.iter().find(|&&x| f[x].ty != WS) {
            same!(got, Some(r(f[x].start, f[x].end)), "caret at {}", a);
        } else if got.is_none() {
            return Err(format!("caret at {} in whitespace gives nothing", a));
        } else if let L::One(x) = leaf_at(&f, 0, a) {
            let w = &text_of(&m)[f[x].start..f[x].end];
            if !w.contains('\n') {
                same!(got, Some(r(f[x].start, f[x].end)), "caret at {} in whitespace within a line", a);
            }
        }
    }
    Ok(n > 2)
}

/// small trees, exhaustively: shapes by a mixed-radix code
fn small(i: u64) -> Option<M> {
    let mut code = i;
    fn go(code: &mut u64, depth: usize) -> M {
        let c = *code % 5;
        *code /= 5;
        match c {
            0 => M::Leaf(2, "a".into()),
            1 => M::Leaf(WS, "\n".into()),
            2 => M::Leaf(3, "".into()),
            _ if depth == 0 => M::Leaf(2, "bb".into()),
            3 => M::Inner(6, vec![]),
            _ => {
                let n = *code % 3;
                *code /= 3;
                M::Inner(5, (0..n + 1).map(|_| go(code, depth - 1)).collect())
            }
        }
    }
    let n = code % 4;
    code /= 4;
    let m = M::Inner(5, (0..n).map(|_| go(&mut code, 2)).collect());
    if code == 0 { Some(m) } else { None }
}

fn phases(check: fn(M) -> Result<bool, String>) -> Vec<Phase> {
    vec![
        phase("small", 4000, move |i, _| {
            let m = small(i)?;
            Some(case(format!("{:?}", m), move || check(m)))
        }),
        phase("random", INF, move |_, g| {
            let m = gen(g);
            Some(case(format!("{:?}", m), move || check(m)))
        }),
    ]
}

pub fn c09() -> Vec<Phase> {
    phases(check_links)
}
pub fn c10() -> Vec<Phase> {
    phases(check_offsets)
}
pub fn c16() -> Vec<Phase> {
    phases(check_walks)
}
pub fn c19() -> Vec<Phase> {
    phases(check_extend)
}
pub fn c11() -> Vec<Phase> {
    vec![
        phase("nodes", INF, |_, g| {
            let m = gen(g);
            let f = flat(&m);
            let mut ks: Vec<usize> = (0..f.len()).collect();
            let mut ops = vec![];
            for _ in 0..g.below(5) {
                if ks.is_empty() {
                    break;
                }
                let i = g.below(ks.len());
                let k = ks.swap_remove(i);
                let s = g.pick::<&str>(&["X", "", "YY", "é", "a"]).to_string();
                ops.push(match g.below(4) {
                    0 => FE::Del(k),
                    1 => FE::Rep(k, s),
                    2 => FE::RepNode(k, g.below(f.len())),
                    _ => FE::Ins(k, s),
                });
            }
            Some(case(format!("{:?} {:?}", m, ops), move || check_edit(m, ops)))
        }),
        phase("substring", INF, |_, g| {
            let m = gen(g);
            let t = text_of(&m);
            let bs = crate::text::boundaries(&t);
            let (a, b) = (*g.pick(&bs), *g.pick(&bs));
            let s = g.pick::<&str>(&["X", "", "YY", "é", "a"]).to_string();
            let ops = vec![FE::Sub(a.min(b), a.max(b), s)];
            Some(case(format!("{:?} {:?}", m, ops), move || check_edit(m, ops)))
        }),
    ]
}
