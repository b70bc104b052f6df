// C01, C02, C12..C15: hand-made grammars run by the real interpreter, compared with a direct
// big-step reading of the grammar language; C03, C04: lexers; C05: incremental reparse.
use crate::common::*;
use crate::text::{apply_model, boundaries, gen_ops, to_edit, EOp};
use fall_parse::runtime::{ParserDefinition, RegexLexer};
use fall_parse::{Arg, Context, Expr, ExprRef, Infix, LexRule, NodeTypeRef, PrattTable, Prefix};
use fall_tree::{File, Language, LanguageImpl, Metrics, Node, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};
use std::any::Any;

// node types; the index in `node_types` differs from the number on purpose
pub const ERROR: u32 = 0;
pub const WS: u32 = 1;
pub const NL: u32 = 2;
pub const COMMENT: u32 = 3;
pub const A: u32 = 4;
pub const B: u32 = 5;
pub const C: u32 = 6;
pub const PLUS: u32 = 7;
pub const STAR: u32 = 8;
pub const LP: u32 = 9;
pub const RP: u32 = 10;
pub const X: u32 = 11;
pub const KW: u32 = 12; // only made by contextual tokens
pub const FILE: u32 = 13;
pub const N0: u32 = 14; // N0.. are inner nodes
pub const N_TYPES: u32 = 26;
const TOKENS: &[u32] = &[A, B, C, PLUS, STAR, LP, RP, X];

pub fn ws_like(ty: u32) -> bool {
    ty == WS || ty == NL || ty == COMMENT
}

fn type_index(ty: u32) -> u32 {
    N_TYPES - 1 - ty
}

#[derive(Debug, Clone)]
pub enum G {
    Pub { ty: u32, body: usize, rep: bool },
    PubReplace { ty: u32, body: usize },
    Or(Vec<usize>),
    And(Vec<usize>, Option<usize>),
    Tok(u32),
    Ctx(u32, String),
    Rep(usize),
    Skip(usize, usize),
    Opt(usize),
    Not(usize),
    Eof,
    Any,
    Layer(usize, usize),
    Pratt { atoms: Vec<usize>, prefixes: Vec<(u32, usize, u32)>, infixes: Vec<(u32, usize, u32, bool)> },
    Enter(usize, usize),
    Exit(usize, usize),
    IsIn(usize),
    Call(usize, Vec<(usize, usize)>),
    Var(usize),
    PrevIs(Vec<u32>),
    Inject(usize, usize),
    Cached(usize),
}

fn to_expr(g: &G) -> Expr {
    let e = |k: &usize| ExprRef(*k as u32);
    let t = |ty: &u32| NodeTypeRef(type_index(*ty));
    let es = |ks: &Vec<usize>| ks.iter().map(|k| ExprRef(*k as u32)).collect::<Vec<_>>();
    match g {
        G::Pub { ty, body, rep } => Expr::Pub { ty: t(ty), body: e(body), replaceable: *rep },
        G::PubReplace { ty, body } => Expr::PubReplace { ty: t(ty), body: e(body) },
        G::Or(ks) => Expr::Or(es(ks)),
        G::And(ks, c) => Expr::And(es(ks), *c),
        G::Tok(ty) => Expr::Token(t(ty)),
        G::Ctx(ty, s) => Expr::ContextualToken(t(ty), s.clone()),
        G::Rep(k) => Expr::Rep(e(k)),
        G::Skip(a, b) => Expr::WithSkip(e(a), e(b)),
        G::Opt(k) => Expr::Opt(e(k)),
        G::Not(k) => Expr::Not(e(k)),
        G::Eof => Expr::Eof,
        G::Any => Expr::Any,
        G::Layer(a, b) => Expr::Layer(e(a), e(b)),
        G::Pratt { atoms, prefixes, infixes } => Expr::Pratt(Box::new(PrattTable {
            atoms: es(atoms),
            prefixes: prefixes.iter().map(|(ty, op, p)| Prefix { ty: t(ty), op: e(op), priority: *p }).collect(),
            infixes: infixes.iter().map(|(ty, op, p, r)| Infix { ty: t(ty), op: e(op), priority: *p, has_rhs: *r }).collect(),
        })),
        G::Enter(c, k) => Expr::Enter(Context(*c as u32), e(k)),
        G::Exit(c, k) => Expr::Exit(Context(*c as u32), e(k)),
        G::IsIn(c) => Expr::IsIn(Context(*c as u32)),
        G::Call(k, args) => Expr::Call(e(k), args.iter().map(|(a, k)| (Arg(*a as u32), e(k))).collect()),
        G::Var(a) => Expr::Var(Arg(*a as u32)),
        G::PrevIs(ts) => Expr::PrevIs(ts.iter().map(|x| t(x)).collect()),
        G::Inject(a, b) => Expr::Inject(e(a), e(b)),
        G::Cached(k) => Expr::Cached(e(k)),
    }
}

// ------------------------------------------------------------------ the language under test
type Binder = fn(ty: NodeType, adjacent_spaces: Vec<(NodeType, &str)>, leading: bool) -> usize;

pub struct Lang {
    lexer: RegexLexer,
    parser: ParserDefinition,
}

impl LanguageImpl for Lang {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::parse(&lang_of(), &self.lexer, &self.parser, text, metrics, builder)
    }
    fn reparse(&self, data: &dyn Any, edit: &TextEdit, new_text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::reparse(&lang_of(), &self.lexer, &self.parser, data, edit, new_text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        info(ty)
    }
}

fn info(ty: NodeType) -> NodeTypeInfo {
    NodeTypeInfo { name: "n", whitespace_like: ws_like(ty.0) }
}

/// the interpreter asks the language only for `node_type_info`
struct Info;
impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        unimplemented!()
    }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        unimplemented!()
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        info(ty)
    }
}
fn lang_of() -> Language {
    Language::new(Info)
}

pub type Rules = Vec<(u32, &'static str)>;

pub fn std_rules() -> Rules {
    vec![
        (WS, "[ \t]"),
        (NL, "\n"),
        (COMMENT, "#[^\n]*"),
        (A, "a"),
        (B, "b"),
        (C, "c"),
        (PLUS, r"\+"),
        (STAR, r"\*"),
        (LP, r"\("),
        (RP, r"\)"),
        (X, "x+"),
    ]
}

pub fn binders() -> Vec<Binder> {
    fn none(_: NodeType, _: Vec<(NodeType, &str)>, _: bool) -> usize {
        0
    }
    fn all(_: NodeType, s: Vec<(NodeType, &str)>, _: bool) -> usize {
        s.len()
    }
    fn comments(_: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize {
        if leading {
            s.iter().rev().take_while(|x| x.1 != "\n").count()
        } else {
            s.iter().take_while(|x| x.0 == NodeType(COMMENT) || x.0 == NodeType(WS)).count()
        }
    }
    fn hash(ty: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize {
        let mut h = ty.0 as usize * 7 + leading as usize * 3;
        for x in &s {
            h = h.wrapping_mul(31).wrapping_add(x.1.len() + x.0 .0 as usize);
        }
        h % (s.len() + 1)
    }
    fn odd(ty: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize {
        if ty.0 % 2 == 1 { s.len() } else if leading { s.len().min(1) } else { 0 }
    }
    vec![none, all, comments, hash, odd]
}

fn extern_rule(s: &str) -> Option<usize> {
    // takes a whole run of `q` and `!`, rejects one that ends in `!`
    let n = s.bytes().take_while(|b| *b == b'q' || *b == b'!').count();
    if s.as_bytes()[n - 1] == b'!' { None } else { Some(n) }
}

pub fn make_lang(rules: &Rules, grammar: &[G], binder: Binder) -> Language {
    let lexer = RegexLexer::new(
        rules
            .iter()
            .map(|(ty, re)| {
                let f: Option<fn(&str) -> Option<usize>> = if *re == "q" { Some(extern_rule) } else { None };
                LexRule::new(NodeType(*ty), re, f)
            })
            .collect(),
    );
    let parser = ParserDefinition {
        node_types: (0..N_TYPES).rev().map(NodeType).collect(),
        syntactical_rules: grammar.iter().map(to_expr).collect(),
        whitespace_binder: binder,
    };
    Language::new(Lang { lexer, parser })
}

// ------------------------------------------------------------------ trees
#[derive(Debug, Clone, PartialEq)]
pub enum T {
    Leaf(u32, String),
    Node(u32, Vec<T>),
}

pub fn tree_of(n: Node) -> T {
    // a node without children is shown as a leaf with its text
    let cs: Vec<T> = n.children().map(tree_of).collect();
    if cs.is_empty() {
        T::Leaf(n.ty().0, n.text().to_string())
    } else {
        T::Node(n.ty().0, cs)
    }
}

fn norm(t: T) -> T {
    match t {
        T::Node(ty, cs) if cs.is_empty() => T::Leaf(ty, String::new()),
        T::Node(ty, cs) => T::Node(ty, cs.into_iter().map(norm).collect()),
        l => l,
    }
}

pub fn show(t: &T) -> String {
    match t {
        T::Leaf(ty, s) => format!("{}{:?}", ty, s),
        T::Node(ty, cs) => format!("{}[{}]", ty, cs.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}

/// C01: the tree tiles the text
pub fn check_tiling(file: &File, text: &str) -> Check {
    let root = file.root();
    same!(file.text().to_string(), text, "text of the file");
    same!((root.range().start().utf8_len(), root.range().end().utf8_len()), (0, text.len()), "range of the root");
    fn go(n: Node, at: usize, out: &mut String) -> Result<usize, String> {
        let (s, e) = (n.range().start().utf8_len(), n.range().end().utf8_len());
        same!(s, at, "start of {:?} {:?}", n.ty(), n.range());
        let mut k = s;
        let mut any = false;
        for c in n.children() {
            any = true;
            k = go(c, k, out)?;
        }
        if any {
            same!(k, e, "end of the children of {:?} {:?}", n.ty(), n.range());
        } else {
            out.push_str(&n.text().to_string());
        }
        Ok(e)
    }
    let mut out = String::new();
    go(root, 0, &mut out)?;
    same!(out, text, "concatenated leaves");
    Ok(())
}

// ------------------------------------------------------------------ reference interpreter
#[derive(Clone, Copy)]
struct RTok<'t> {
    ty: u32,
    text: &'t str,
    start: usize,
}

pub enum Stop {
    Fuel,
    /// the grammar breaks a precondition (an operand or injected part that is not a node, ...)
    Scope,
}

#[derive(Debug, Clone)]
enum It {
    /// type, items, wrapped: opened after its first item
    Node(u32, Vec<It>, bool),
    /// type, number of tokens
    Tok(u32, usize),
}

type R = Result<Option<(usize, Vec<It>)>, Stop>;

struct Ref<'t> {
    g: &'t [G],
    toks: Vec<RTok<'t>>,
    text: &'t str,
    contexts: [bool; 16],
    args: [Option<usize>; 16],
    prev: Option<u32>,
    replacement: Option<u32>,
    fuel: usize,
}

impl<'t> Ref<'t> {
    /// `pos..end` are the tokens in sight
    fn eval(&mut self, e: usize, pos: usize, end: usize) -> R {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        let g: &'t [G] = self.g;
        Ok(match &g[e] {
            G::Pub { ty, body, rep } => {
                if *rep {
                    self.replacement = None;
                }
                match self.eval(*body, pos, end)? {
                    None => None,
                    Some((p, items)) => {
                        let mut t = *ty;
                        if *rep {
                            if let Some(r) = self.replacement.take() {
                                t = r;
                            }
                        }
                        self.prev = Some(*ty);
                        Some((p, vec![It::Node(t, items, false)]))
                    }
                }
            }
            G::PubReplace { ty, body } => {
                let r = self.eval(*body, pos, end)?;
                if r.is_some() {
                    self.replacement = Some(*ty);
                }
                r
            }
            G::Or(ks) => {
                for k in ks {
                    let r = self.eval(*k, pos, end)?;
                    if r.is_some() {
                        return Ok(r);
                    }
                }
                None
            }
            G::And(ks, commit) => {
                let mut p = pos;
                let mut items = vec![];
                let mut n = 0;
                for k in ks {
                    match self.eval(*k, p, end)? {
                        Some((q, its)) => {
                            p = q;
                            items.extend(its);
                            n += 1;
                        }
                        None => break,
                    }
                }
                if n < commit.unwrap_or(ks.len()) {
                    return Ok(None);
                }
                if n < ks.len() {
                    items.push(It::Node(ERROR, vec![], false));
                }
                Some((p, items))
            }
            G::Tok(ty) => {
                if pos < end && self.toks[pos].ty == *ty {
                    Some((pos + 1, vec![It::Tok(*ty, 1)]))
                } else {
                    None
                }
            }
            G::Any => {
                if pos < end {
                    Some((pos + 1, vec![It::Tok(self.toks[pos].ty, 1)]))
                } else {
                    None
                }
            }
            G::Ctx(ty, s) => {
                if pos >= end {
                    return Ok(None);
                }
                let start = self.toks[pos].start;
                if !self.text[start..].starts_with(s.as_str()) {
                    return Ok(None);
                }
                let mut p = pos;
                let mut len = 0;
                while len < s.len() {
                    if p >= end {
                        return Ok(None);
                    }
                    len += self.toks[p].text.len();
                    p += 1;
                }
                if len > s.len() {
                    return Ok(None);
                }
                Some((p, vec![It::Tok(*ty, p - pos)]))
            }
            G::Rep(k) => {
                let mut p = pos;
                let mut items = vec![];
                while let Some((q, its)) = self.eval(*k, p, end)? {
                    p = q;
                    items.extend(its);
                }
                Some((p, items))
            }
            G::Opt(k) => match self.eval(*k, pos, end)? {
                None => Some((pos, vec![])),
                r => r,
            },
            G::Not(k) => match self.eval(*k, pos, end)? {
                None => Some((pos, vec![])),
                Some(_) => None,
            },
            G::Eof => {
                if pos == end {
                    Some((pos, vec![]))
                } else {
                    None
                }
            }
            G::Layer(l, k) => {
                let rest = match self.eval(*l, pos, end)? {
                    None => return Ok(None),
                    Some((p, _)) => p,
                };
                let (p, mut items) = match self.eval(*k, pos, rest)? {
                    None => (pos, vec![]),
                    Some(x) => x,
                };
                if p < rest {
                    items.push(It::Node(ERROR, (p..rest).map(|i| It::Tok(self.toks[i].ty, 1)).collect(), false));
                }
                Some((rest, items))
            }
            G::Skip(first, body) => {
                let mut p = pos;
                loop {
                    if self.eval(*first, p, end)?.is_some() {
                        if let Some((q, its)) = self.eval(*body, p, end)? {
                            let mut items = vec![];
                            if p > pos {
                                items.push(It::Node(ERROR, (pos..p).map(|i| It::Tok(self.toks[i].ty, 1)).collect(), false));
                            }
                            items.extend(its);
                            return Ok(Some((q, items)));
                        }
                    }
                    if p == end {
                        return Ok(None);
                    }
                    p += 1;
                }
            }
            G::Enter(c, k) | G::Exit(c, k) => {
                let old = self.contexts[*c];
                self.contexts[*c] = match &g[e] {
                    G::Enter(..) => true,
                    _ => false,
                };
                let r = self.eval(*k, pos, end)?;
                self.contexts[*c] = old;
                r
            }
            G::IsIn(c) => {
                if self.contexts[*c] {
                    Some((pos, vec![]))
                } else {
                    None
                }
            }
            G::Call(k, args) => {
                let old = self.args;
                for (a, v) in args {
                    let v = match &g[*v] {
                        G::Var(i) => match old[*i] {
                            Some(x) => x,
                            None => return Err(Stop::Scope),
                        },
                        _ => *v,
                    };
                    self.args[*a] = Some(v);
                }
                let r = self.eval(*k, pos, end)?;
                self.args = old;
                r
            }
            G::Var(a) => match self.args[*a] {
                Some(k) => self.eval(k, pos, end)?,
                None => return Err(Stop::Scope),
            },
            G::PrevIs(ts) => match self.prev {
                Some(p) if ts.contains(&p) => Some((pos, vec![])),
                _ => None,
            },
            G::Inject(a, b) => {
                let (p, pre) = match self.eval(*a, pos, end)? {
                    None => return Ok(None),
                    Some(x) => x,
                };
                let (q, mut body) = match self.eval(*b, p, end)? {
                    None => return Ok(None),
                    Some(x) => x,
                };
                if p == pos {
                    let mut items = pre;
                    items.extend(body);
                    return Ok(Some((q, items)));
                }
                match pre.first() {
                    Some(It::Node(..)) => {}
                    _ => return Err(Stop::Scope),
                }
                // into the node the body opens first
                fn put(n: &mut It, pre: Vec<It>) -> Result<(), Stop> {
                    match n {
                        It::Node(_, cs, wrapped) => {
                            if *wrapped {
                                return put(&mut cs[0], pre);
                            }
                            let rest = std::mem::replace(cs, pre);
                            cs.extend(rest);
                            *wrapped = true;
                            Ok(())
                        }
                        _ => Err(Stop::Scope),
                    }
                }
                match body.first_mut() {
                    Some(n) => put(n, pre)?,
                    None => return Err(Stop::Scope),
                }
                Some((q, body))
            }
            G::Cached(k) => {
                let old = (self.prev.take(), self.replacement.take());
                let r = self.eval(*k, pos, end)?;
                self.prev = self.prev.or(old.0);
                self.replacement = self.replacement.or(old.1);
                r
            }
            G::Pratt { .. } => self.pratt(e, pos, end, 0)?,
        })
    }

    fn pratt(&mut self, e: usize, pos: usize, end: usize, min: u32) -> R {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        let g: &'t [G] = self.g;
        let (atoms, prefixes, infixes) = match &g[e] {
            G::Pratt { atoms, prefixes, infixes } => (atoms, prefixes, infixes),
            _ => unreachable!(),
        };
        // an operand
        let mut lhs = None;
        for a in atoms {
            lhs = self.eval(*a, pos, end)?;
            if lhs.is_some() {
                break;
            }
        }
        if lhs.is_none() {
            for (ty, op, prio) in prefixes {
                if let Some((p, mut items)) = self.eval(*op, pos, end)? {
                    if let Some((q, its)) = self.pratt(e, p, end, *prio)? {
                        items.extend(its);
                        self.prev = Some(*ty);
                        lhs = Some((q, vec![It::Node(*ty, items, false)]));
                        break;
                    }
                }
            }
        }
        let (mut p, mut items) = match lhs {
            None => return Ok(None),
            Some(x) => x,
        };
        'ops: loop {
            for (ty, op, prio, has_rhs) in infixes {
                if *prio < min {
                    continue;
                }
                if let Some((q, op_items)) = self.eval(*op, p, end)? {
                    match items.first() {
                        Some(It::Node(..)) => {}
                        _ => return Err(Stop::Scope),
                    }
                    p = q;
                    items.extend(op_items);
                    if *has_rhs {
                        match self.pratt(e, p, end, *prio + 1)? {
                            Some((q, its)) => {
                                p = q;
                                items.extend(its);
                            }
                            None => items.push(It::Node(ERROR, vec![], false)),
                        }
                    }
                    self.prev = Some(*ty);
                    items = vec![It::Node(*ty, items, true)];
                    continue 'ops;
                }
            }
            break;
        }
        Ok(Some((p, items)))
    }
}

// ------------------------------------------------------------------ reference tree building
struct Place<'t> {
    raw: Vec<(u32, &'t str)>,
    at: usize,
    binder: Binder,
    root: u32,
}

impl<'t> Place<'t> {
    fn spaces(&self) -> usize {
        self.raw[self.at..].iter().take_while(|t| ws_like(t.0)).count()
    }
    fn bind(&self, ty: u32, n: usize, leading: bool) -> usize {
        if ty == self.root {
            return n;
        }
        let adj: Vec<(NodeType, &str)> = self.raw[self.at..self.at + n].iter().map(|t| (NodeType(t.0), t.1)).collect();
        (self.binder)(NodeType(ty), adj, leading)
    }
    fn take(&mut self, n: usize, out: &mut Vec<T>) {
        for _ in 0..n {
            let (ty, s) = self.raw[self.at];
            out.push(T::Leaf(ty, s.to_string()));
            self.at += 1;
        }
    }
    fn node(&mut self, ty: u32, items: &[It]) -> T {
        let mut out = vec![];
        for it in items {
            match it {
                It::Tok(ty, n) => {
                    let w = self.spaces();
                    self.take(w, &mut out);
                    let s: String = self.raw[self.at..self.at + n].iter().map(|t| t.1).collect();
                    self.at += n;
                    out.push(T::Leaf(*ty, s));
                }
                It::Node(ty, items, _) => {
                    let w = self.spaces();
                    let inside = self.bind(*ty, w, true);
                    self.take(w - inside, &mut out);
                    let t = self.node(*ty, items);
                    out.push(t);
                }
            }
        }
        let w = self.spaces();
        let inside = self.bind(ty, w, false);
        self.take(inside, &mut out);
        T::Node(ty, out)
    }
}

/// longest match, first rule wins, anything else is an error up to the next match
pub fn ref_lex<'t>(rules: &[(u32, regex::Regex, bool)], text: &'t str) -> Vec<(u32, &'t str)> {
    fn one(rules: &[(u32, regex::Regex, bool)], s: &str) -> Option<(u32, usize)> {
        let mut best: Option<(u32, usize, bool)> = None;
        for (ty, re, ext) in rules {
            if let Some(m) = re.find(s) {
                if m.start() == 0 && best.map_or(true, |b| m.end() > b.1) {
                    best = Some((*ty, m.end(), *ext));
                }
            }
        }
        let (ty, len, ext) = best?;
        if ext { extern_rule(s).map(|n| (ty, n)) } else { Some((ty, len)) }
    }
    let mut out = vec![];
    let mut s = text;
    while !s.is_empty() {
        let (ty, n) = match one(rules, s) {
            Some(x) => x,
            None => {
                let mut n = 0;
                for c in s.chars() {
                    n += c.len_utf8();
                    if n < s.len() && one(rules, &s[n..]).is_some() {
                        break;
                    }
                }
                (ERROR, n)
            }
        };
        out.push((ty, &s[..n]));
        s = &s[n..];
    }
    out
}

pub fn compile(rules: &Rules) -> Vec<(u32, regex::Regex, bool)> {
    rules.iter().map(|(ty, re)| (*ty, regex::Regex::new(&format!("^(?:{})", re)).unwrap(), *re == "q")).collect()
}

pub fn ref_tree(g: &[G], binder: Binder, rules: &[(u32, regex::Regex, bool)], text: &str) -> Result<T, Stop> {
    let raw = ref_lex(rules, text);
    let mut toks = vec![];
    let mut at = 0;
    for (ty, s) in &raw {
        if !ws_like(*ty) {
            toks.push(RTok { ty: *ty, text: s, start: at });
        }
        at += s.len();
    }
    let n = toks.len();
    let mut r = Ref { g, toks, text, contexts: [false; 16], args: [None; 16], prev: None, replacement: None, fuel: 4000 };
    let res = r.eval(0, 0, n)?;
    let (ty, mut items, p, failed) = match res {
        Some((p, items)) => match items.into_iter().next() {
            Some(It::Node(ty, items, _)) => (ty, items, p, false),
            _ => return Err(Stop::Scope),
        },
        None => (FILE, vec![], 0, true),
    };
    if p < n || failed {
        items.push(It::Node(ERROR, (p..n).map(|i| It::Tok(r.toks[i].ty, 1)).collect(), false));
    }
    let mut pl = Place { raw, at: 0, binder, root: ty };
    let mut t = pl.node(ty, &items);
    // the root takes everything that is left
    if let T::Node(_, cs) = &mut t {
        let k = pl.raw.len() - pl.at;
        pl.take(k, cs);
    }
    Ok(norm(t))
}

// ------------------------------------------------------------------ random grammars
struct Gen<'r> {
    g: &'r mut Rng,
    out: Vec<Option<G>>,
    rules: usize,
    /// weights of the constructs
    w: &'r [(u32, usize)],
    ctx: bool,
    args: bool,
}

// construct numbers for weights
const K_PUB: u32 = 0;
const K_OR: u32 = 1;
const K_AND: u32 = 2;
const K_COMMIT: u32 = 3;
const K_TOK: u32 = 4;
const K_CTX: u32 = 5;
const K_REP: u32 = 6;
const K_SKIP: u32 = 7;
const K_OPT: u32 = 8;
const K_NOT: u32 = 9;
const K_EOF: u32 = 10;
const K_ANY: u32 = 11;
const K_LAYER: u32 = 12;
const K_PRATT: u32 = 13;
const K_ENTER: u32 = 14;
const K_EXIT: u32 = 15;
const K_ISIN: u32 = 16;
const K_CALL: u32 = 17;
const K_VAR: u32 = 18;
const K_PREV: u32 = 19;
const K_INJECT: u32 = 20;
const K_CACHED: u32 = 21;
const K_RULE: u32 = 22;
const K_REPLACEABLE: u32 = 23;
const K_REPLACE: u32 = 24;

const CTX_TEXTS: &[(&str, u32)] = &[("a", KW), ("b", KW), ("ab", KW), ("aa", KW), ("+b", KW), ("xx", KW), ("c*", KW), ("abc", KW), ("x", KW), ("a", A), ("", KW)];

impl<'r> Gen<'r> {
    fn add(&mut self, g: G) -> usize {
        self.out.push(Some(g));
        self.out.len() - 1
    }
    fn node_ty(&mut self) -> u32 {
        N0 + self.g.below((N_TYPES - N0) as usize) as u32
    }
    fn tok(&mut self) -> usize {
        let t = *self.g.pick(TOKENS);
        self.add(G::Tok(t))
    }
    fn many(&mut self, d: usize, lo: usize, hi: usize) -> Vec<usize> {
        let n = self.g.range(lo, hi);
        (0..n).map(|_| self.gen(d)).collect()
    }
    fn pubn(&mut self, d: usize) -> usize {
        let ty = self.node_ty();
        let body = self.gen(d.saturating_sub(1));
        self.add(G::Pub { ty, body, rep: false })
    }
    /// an expression that starts with a node, mostly
    fn nodish(&mut self, d: usize) -> usize {
        match self.g.below(10) {
            0 => self.gen(d),
            1 | 2 if d > 0 => {
                let a = self.nodish(d - 1);
                let b = self.nodish(d - 1);
                self.add(G::Inject(a, b))
            }
            3 if d > 0 => {
                let a = self.nodish(d - 1);
                let k = self.add(G::Opt(a));
                let b = self.pubn(d);
                self.add(G::Inject(k, b))
            }
            4 if d > 0 => self.pratt(d - 1),
            5 => {
                let t = self.tok();
                let p = { let ty = self.node_ty(); self.add(G::Pub { ty, body: t, rep: false }) };
                let q = self.pubn(d);
                self.add(G::Or(vec![p, q]))
            }
            _ => self.pubn(d),
        }
    }
    fn op(&mut self) -> usize {
        if self.g.chance(1, 6) {
            let a = self.tok();
            let b = self.tok();
            let c = if self.g.chance(1, 2) { Some(1) } else { None };
            self.add(G::And(vec![a, b], c))
        } else {
            let t = *self.g.pick(&[PLUS, STAR, B, C, LP]);
            self.add(G::Tok(t))
        }
    }
    fn pratt(&mut self, d: usize) -> usize {
        let mut atoms = vec![];
        let ty = self.node_ty();
        let t = *self.g.pick(&[A, X]);
        let t = self.add(G::Tok(t));
        atoms.push(self.add(G::Pub { ty, body: t, rep: false }));
        for _ in 0..self.g.below(2) {
            let k = self.nodish(d);
            atoms.push(k);
        }
        let mut prefixes = vec![];
        for _ in 0..self.g.below(3) {
            let (ty, op, p) = (self.node_ty(), self.op(), self.g.range(1, 5) as u32);
            prefixes.push((ty, op, p));
        }
        let mut infixes = vec![];
        for _ in 0..self.g.range(0, 4) {
            let (ty, op, p, r) = (self.node_ty(), self.op(), self.g.range(0, 5) as u32, self.g.chance(3, 4));
            infixes.push((ty, op, p, r));
        }
        self.add(G::Pratt { atoms, prefixes, infixes })
    }
    fn gen(&mut self, d: usize) -> usize {
        if d == 0 {
            return match self.g.below(8) {
                0 => self.add(G::Any),
                1 if self.ctx => {
                    let c = self.g.below(3);
                    self.add(G::IsIn(c))
                }
                _ => self.tok(),
            };
        }
        let total: usize = self.w.iter().map(|x| x.1).sum();
        let mut k = self.g.below(total);
        let mut kind = K_TOK;
        for (c, w) in self.w {
            if k < *w {
                kind = *c;
                break;
            }
            k -= w;
        }
        let d = d - 1;
        match kind {
            K_PUB => self.pubn(d),
            K_REPLACEABLE => {
                let ty = self.node_ty();
                let body = self.gen(d);
                self.add(G::Pub { ty, body, rep: true })
            }
            K_REPLACE => {
                let ty = self.node_ty();
                let body = self.gen(d);
                self.add(G::PubReplace { ty, body })
            }
            K_OR => {
                let ks = self.many(d, 0, 3);
                self.add(G::Or(ks))
            }
            K_AND => {
                let ks = self.many(d, 0, 3);
                self.add(G::And(ks, None))
            }
            K_COMMIT => {
                let ks = self.many(d, 1, 4);
                let c = self.g.below(ks.len() + 1);
                self.add(G::And(ks, Some(c)))
            }
            K_CTX => {
                let (s, ty) = *self.g.pick(CTX_TEXTS);
                self.add(G::Ctx(ty, s.to_string()))
            }
            K_REP => {
                let k = self.gen(d);
                self.add(G::Rep(k))
            }
            K_SKIP => {
                let t = self.gen(d);
                let k = if self.g.chance(1, 3) { t } else { self.gen(d) };
                self.add(G::Skip(t, k))
            }
            K_OPT => {
                let k = self.gen(d);
                self.add(G::Opt(k))
            }
            K_NOT => {
                let k = self.gen(d);
                self.add(G::Not(k))
            }
            K_EOF => self.add(G::Eof),
            K_ANY => self.add(G::Any),
            K_LAYER => {
                let (a, b) = (self.gen(d), self.gen(d));
                self.add(G::Layer(a, b))
            }
            K_PRATT => self.pratt(d),
            K_ENTER | K_EXIT => {
                let c = self.g.below(3);
                let k = self.gen(d);
                self.add(if kind == K_ENTER { G::Enter(c, k) } else { G::Exit(c, k) })
            }
            K_ISIN => {
                let c = self.g.below(3);
                self.add(G::IsIn(c))
            }
            K_CALL => {
                let n = self.g.range(1, 3);
                let body = if self.g.chance(1, 2) { self.g.range(1, self.rules) } else { self.gen(d) };
                let mut args = vec![];
                for i in 0..n {
                    let a = if self.g.chance(1, 5) { self.g.below(4) } else { i };
                    let v = if self.g.chance(1, 3) {
                        let v = self.g.below(4);
                        self.add(G::Var(v))
                    } else {
                        self.gen(d.min(1))
                    };
                    args.push((a, v));
                }
                self.add(G::Call(body, args))
            }
            K_VAR if self.args => {
                let v = self.g.below(4);
                self.add(G::Var(v))
            }
            K_PREV => {
                let n = self.g.range(0, 3);
                let ts = (0..n).map(|_| self.node_ty()).collect();
                self.add(G::PrevIs(ts))
            }
            K_INJECT => {
                let (a, b) = (self.nodish(d), self.nodish(d));
                self.add(G::Inject(a, b))
            }
            K_CACHED => {
                let k = self.gen(d);
                self.add(G::Cached(k))
            }
            K_RULE => self.g.range(1, self.rules),
            _ => self.tok(),
        }
    }
}

fn first_is_cached(g: &[G], e: usize, seen: &mut Vec<usize>) -> bool {
    // may the first thing `e` reports be a cache bracket?
    if seen.contains(&e) {
        return false;
    }
    seen.push(e);
    match &g[e] {
        G::Cached(_) => true,
        G::Pub { .. } | G::Tok(_) | G::Ctx(..) | G::Any | G::Not(_) | G::Eof | G::IsIn(_) | G::PrevIs(_) => false,
        G::PubReplace { body, .. } => first_is_cached(g, *body, seen),
        G::Or(ks) | G::And(ks, _) => ks.iter().any(|k| first_is_cached(g, *k, seen)),
        G::Rep(k) | G::Opt(k) | G::Enter(_, k) | G::Exit(_, k) => first_is_cached(g, *k, seen),
        G::Layer(_, k) | G::Skip(_, k) => first_is_cached(g, *k, seen),
        G::Inject(a, b) => first_is_cached(g, *a, seen) || first_is_cached(g, *b, seen),
        G::Pratt { atoms, .. } => atoms.iter().any(|k| first_is_cached(g, *k, seen)),
        G::Call(k, args) => first_is_cached(g, *k, seen) || args.iter().any(|a| first_is_cached(g, a.1, seen)),
        G::Var(_) => g.iter().enumerate().any(|(_, x)| match x {
            G::Call(_, args) => args.iter().any(|a| first_is_cached(g, a.1, seen)),
            _ => false,
        }),
    }
}

/// every recursion consumes input, repeated things and operators consume input, and no operand or
/// injected part starts with a cached rule
pub fn in_scope(g: &[G]) -> bool {
    let n = g.len();
    let mut nullable = vec![false; n];
    let bound = |a: usize| -> Vec<usize> {
        let mut v = vec![];
        for x in g {
            if let G::Call(_, args) = x {
                v.extend(args.iter().filter(|y| y.0 == a).map(|y| y.1));
            }
        }
        v
    };
    let vars: Vec<Vec<usize>> = (0..16).map(bound).collect();
    // a variable may stand for anything bound to it, also through other variables
    let any_var: Vec<usize> = vars.iter().flat_map(|v| v.iter().cloned()).collect();
    loop {
        let mut changed = false;
        for e in 0..n {
            let v = match &g[e] {
                G::Pub { body, .. } | G::PubReplace { body, .. } => nullable[*body],
                G::Or(ks) => ks.iter().any(|k| nullable[*k]),
                G::And(ks, c) => ks.iter().take(c.unwrap_or(ks.len())).all(|k| nullable[*k]),
                G::Tok(_) | G::Any => false,
                G::Ctx(_, s) => s.is_empty(),
                G::Rep(_) | G::Opt(_) | G::Not(_) | G::Eof | G::IsIn(_) | G::PrevIs(_) => true,
                G::Skip(_, k) => nullable[*k],
                G::Layer(l, _) => nullable[*l],
                G::Pratt { atoms, .. } => atoms.iter().any(|k| nullable[*k]),
                G::Enter(_, k) | G::Exit(_, k) | G::Cached(k) | G::Call(k, _) => nullable[*k],
                G::Var(_) => any_var.iter().any(|k| nullable[*k]),
                G::Inject(a, b) => nullable[*a] && nullable[*b],
            };
            if v && !nullable[e] {
                nullable[e] = true;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    let mut left: Vec<Vec<usize>> = vec![vec![]; n];
    for e in 0..n {
        left[e] = match &g[e] {
            G::Pub { body, .. } | G::PubReplace { body, .. } => vec![*body],
            G::Or(ks) => ks.clone(),
            G::And(ks, _) => {
                let mut v = vec![];
                for k in ks {
                    v.push(*k);
                    if !nullable[*k] {
                        break;
                    }
                }
                v
            }
            G::Tok(_) | G::Any | G::Ctx(..) | G::Eof | G::IsIn(_) | G::PrevIs(_) => vec![],
            G::Rep(k) => {
                if nullable[*k] {
                    return false;
                }
                vec![*k]
            }
            G::Opt(k) | G::Not(k) | G::Enter(_, k) | G::Exit(_, k) | G::Cached(k) | G::Call(k, _) => vec![*k],
            G::Skip(a, b) | G::Layer(a, b) => vec![*a, *b],
            G::Pratt { atoms, prefixes, infixes } => {
                if atoms.iter().any(|k| nullable[*k]) || prefixes.iter().any(|k| nullable[k.1]) || infixes.iter().any(|k| nullable[k.1]) {
                    return false;
                }
                if atoms.iter().any(|k| first_is_cached(g, *k, &mut vec![])) {
                    return false;
                }
                atoms.iter().cloned().chain(prefixes.iter().map(|k| k.1)).collect()
            }
            G::Var(_) => any_var.clone(),
            G::Inject(a, b) => {
                if first_is_cached(g, *a, &mut vec![]) || first_is_cached(g, *b, &mut vec![]) {
                    return false;
                }
                if nullable[*a] { vec![*a, *b] } else { vec![*a] }
            }
        };
    }
    // no cycle
    fn dfs(k: usize, left: &[Vec<usize>], st: &mut Vec<u8>) -> bool {
        if st[k] == 2 {
            return true;
        }
        if st[k] == 1 {
            return false;
        }
        st[k] = 1;
        for &x in &left[k] {
            if !dfs(x, left, st) {
                return false;
            }
        }
        st[k] = 2;
        true
    }
    let mut st = vec![0; n];
    (0..n).all(|k| dfs(k, &left, &mut st))
}

pub fn gen_grammar(g: &mut Rng, w: &[(u32, usize)], depth: usize) -> Option<Vec<G>> {
    let rules = g.range(1, 4);
    let ctx = w.iter().any(|x| x.0 == K_ISIN);
    let args = w.iter().any(|x| x.0 == K_VAR);
    let mut gen = Gen { g, out: vec![None; rules + 1], rules, w, ctx, args };
    for k in 1..=rules {
        let e = gen.gen(depth);
        // a rule is a copy of its body's expression, or a node
        let x = match gen.out[e].clone() {
            Some(x) if gen.g.chance(2, 3) => x,
            _ => {
                let ty = gen.node_ty();
                G::Pub { ty, body: e, rep: false }
            }
        };
        gen.out[k] = Some(x);
    }
    // the file: a repetition of an element, or a single expression
    let body = match gen.g.below(4) {
        0 => gen.gen(depth),
        1 => {
            let k = gen.g.range(1, rules);
            gen.add(G::Rep(k))
        }
        2 => {
            let a = gen.gen(depth);
            let t = gen.tok();
            let k = gen.add(G::Skip(t, a));
            gen.add(G::Rep(k))
        }
        _ => {
            let ks = gen.many(depth, 1, 4);
            let c = if gen.g.chance(1, 3) { Some(gen.g.below(ks.len())) } else { None };
            gen.add(G::And(ks, c))
        }
    };
    // the root may get the type of a node which replaces it
    let rep = w.iter().any(|x| x.0 == K_REPLACE) && gen.g.chance(1, 6);
    gen.out[0] = Some(G::Pub { ty: FILE, body, rep });
    let out: Vec<G> = gen.out.into_iter().map(|x| x.unwrap_or(G::Eof)).collect();
    if in_scope(&out) { Some(out) } else { None }
}

/// texts the grammar is likely to accept: a random derivation, then small damage
fn derive(g: &mut Rng, gr: &[G], e: usize, depth: usize, out: &mut Vec<String>) {
    if depth == 0 || out.len() > 30 {
        return;
    }
    let d = depth - 1;
    let lit = |t: u32| -> String {
        match t {
            A => "a",
            B => "b",
            C => "c",
            PLUS => "+",
            STAR => "*",
            LP => "(",
            RP => ")",
            X => "xx",
            _ => "",
        }
        .to_string()
    };
    match &gr[e] {
        G::Pub { body, .. } | G::PubReplace { body, .. } => derive(g, gr, *body, d, out),
        G::Or(ks) => {
            if !ks.is_empty() {
                let k = *g.pick(ks);
                derive(g, gr, k, d, out)
            }
        }
        G::And(ks, c) => {
            let n = if c.is_some() && g.chance(1, 4) { g.below(ks.len() + 1) } else { ks.len() };
            for k in &ks[..n] {
                derive(g, gr, *k, d, out);
            }
        }
        G::Tok(t) => out.push(lit(*t)),
        G::Ctx(_, s) => out.push(s.clone()),
        G::Any => out.push(lit(*g.pick(TOKENS))),
        G::Rep(k) => {
            for _ in 0..g.below(4) {
                derive(g, gr, *k, d, out);
            }
        }
        G::Opt(k) => {
            if g.chance(2, 3) {
                derive(g, gr, *k, d, out);
            }
        }
        G::Skip(_, k) => {
            for _ in 0..g.below(3) {
                out.push(lit(*g.pick(TOKENS)));
            }
            derive(g, gr, *k, d, out)
        }
        G::Layer(l, k) => {
            let k = if g.chance(1, 2) { *k } else { *l };
            derive(g, gr, k, d, out)
        }
        G::Pratt { atoms, prefixes, infixes } => {
            for _ in 0..g.range(1, 6) {
                if !prefixes.is_empty() && g.chance(1, 4) {
                    let k = g.pick(prefixes).1;
                    derive(g, gr, k, d, out);
                }
                if !g.chance(1, 12) {
                    let k = *g.pick(atoms);
                    derive(g, gr, k, d, out);
                }
                if !infixes.is_empty() {
                    let k = g.pick(infixes).1;
                    derive(g, gr, k, d, out);
                }
            }
            let k = *g.pick(atoms);
            derive(g, gr, k, d, out);
        }
        G::Enter(_, k) | G::Exit(_, k) | G::Cached(k) => derive(g, gr, *k, d, out),
        G::Call(k, args) => {
            if g.chance(1, 3) {
                for a in args {
                    derive(g, gr, a.1, d, out);
                }
            } else {
                derive(g, gr, *k, d, out)
            }
        }
        G::Var(a) => {
            let mut v = vec![];
            for x in gr {
                if let G::Call(_, args) = x {
                    v.extend(args.iter().filter(|y| y.0 == *a).map(|y| y.1));
                }
            }
            if !v.is_empty() {
                let k = *g.pick(&v);
                derive(g, gr, k, d, out)
            }
        }
        G::Inject(a, b) => {
            derive(g, gr, *a, d, out);
            derive(g, gr, *b, d, out);
        }
        G::Not(_) | G::Eof | G::IsIn(_) | G::PrevIs(_) => {}
    }
}

pub fn gen_text(g: &mut Rng, gr: &[G], ws: usize) -> String {
    let mut parts = vec![];
    if g.chance(5, 6) {
        derive(g, gr, 0, 12, &mut parts);
    } else {
        for _ in 0..g.below(8) {
            parts.push(g.pick::<&str>(&["a", "b", "c", "+", "*", "(", ")", "xx", "x", "é", "$"]).to_string());
        }
    }
    for _ in 0..g.below(3) {
        if !parts.is_empty() && g.chance(1, 2) {
            let k = g.below(parts.len());
            match g.below(3) {
                0 => {
                    parts.remove(k);
                }
                1 => parts.insert(k, g.pick::<&str>(&["a", "b", "c", "+", "*", "(", ")", "x", "$", "é"]).to_string()),
                _ => parts[k] = g.pick::<&str>(&["a", "b", "c", "+", "*", "(", ")", "x", "漢"]).to_string(),
            }
        }
    }
    parts.truncate(24);
    let mut s = String::new();
    let space = |g: &mut Rng, s: &mut String| {
        while g.below(10) < ws {
            s.push_str(g.pick::<&str>(&[" ", "\n", "\t", "#c\n", "#"]));
        }
    };
    space(g, &mut s);
    for p in &parts {
        s.push_str(p);
        space(g, &mut s);
    }
    s
}

fn pretty(gr: &[G]) -> String {
    gr.iter().enumerate().map(|(k, e)| format!("{}={:?}", k, e)).collect::<Vec<_>>().join("; ")
}

thread_local! {
    static STD: Vec<(u32, regex::Regex, bool)> = compile(&std_rules());
}

fn check_parse(gr: Vec<G>, binder: usize, texts: Vec<String>) -> Result<bool, String> {
    let b = binders()[binder];
    let lang = make_lang(&std_rules(), &gr, b);
    let mut checked = false;
    for text in &texts {
        let want = match STD.with(|s| ref_tree(&gr, b, s, text)) {
            Ok(t) => t,
            Err(_) => continue,
        };
        checked = true;
        let file = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lang.parse(text.clone()))) {
            Ok(f) => f,
            Err(_) => return Err(format!("parsing {:?} panics; expected {}", text, show(&want))),
        };
        let got = tree_of(file.root());
        if got != want {
            return Err(format!("tree of {:?}: got {}, expected {}", text, show(&got), show(&want)));
        }
        check_tiling(&file, text)?;
    }
    Ok(checked)
}

fn grammar_phase(name: &'static str, w: &'static [(u32, usize)], depth: usize, ws: usize, only_binder: Option<usize>) -> Phase {
    phase(name, INF, move |_, g| {
        let mut gr = None;
        for _ in 0..20 {
            gr = gen_grammar(g, w, depth);
            if gr.is_some() {
                break;
            }
        }
        let gr = gr?;
        let binder = only_binder.unwrap_or_else(|| g.below(binders().len()));
        let mut texts: Vec<String> = (0..8).map(|_| gen_text(g, &gr, ws)).collect();
        texts.push(String::new());
        texts.sort();
        texts.dedup();
        Some(case(format!("grammar {} binder {} texts {:?}", pretty(&gr), binder, texts), move || check_parse(gr, binder, texts)))
    })
}

const W_ALL: &[(u32, usize)] = &[
    (K_PUB, 8), (K_OR, 5), (K_AND, 8), (K_COMMIT, 5), (K_TOK, 8), (K_CTX, 4), (K_REP, 4), (K_SKIP, 3), (K_OPT, 4), (K_NOT, 3), (K_EOF, 2),
    (K_ANY, 2), (K_LAYER, 4), (K_PRATT, 2), (K_ENTER, 2), (K_EXIT, 2), (K_ISIN, 2), (K_CALL, 3), (K_VAR, 3), (K_PREV, 2), (K_INJECT, 3),
    (K_CACHED, 1), (K_RULE, 5), (K_REPLACEABLE, 2), (K_REPLACE, 2),
];
const W_PLAIN: &[(u32, usize)] = &[
    (K_PUB, 6), (K_OR, 6), (K_AND, 8), (K_COMMIT, 6), (K_TOK, 8), (K_CTX, 4), (K_REP, 5), (K_SKIP, 4), (K_OPT, 5), (K_NOT, 4), (K_EOF, 2),
    (K_ANY, 2), (K_LAYER, 5), (K_RULE, 4),
];
const W_STATE: &[(u32, usize)] = &[
    (K_PUB, 5), (K_OR, 8), (K_AND, 8), (K_COMMIT, 2), (K_TOK, 6), (K_OPT, 6), (K_NOT, 5), (K_LAYER, 5), (K_SKIP, 4), (K_REP, 4),
    (K_ENTER, 7), (K_EXIT, 5), (K_ISIN, 8), (K_CALL, 7), (K_VAR, 8), (K_RULE, 5), (K_REPLACEABLE, 2), (K_REPLACE, 2), (K_PRATT, 2), (K_INJECT, 2), (K_CACHED, 2),
];
const W_CALL: &[(u32, usize)] = &[(K_PUB, 6), (K_OR, 5), (K_AND, 8), (K_TOK, 8), (K_OPT, 4), (K_CALL, 12), (K_VAR, 12), (K_RULE, 6), (K_REP, 3)];
const W_PREV: &[(u32, usize)] = &[(K_PUB, 10), (K_OR, 6), (K_AND, 8), (K_TOK, 6), (K_OPT, 3), (K_PREV, 9), (K_REPLACEABLE, 7), (K_REPLACE, 8), (K_RULE, 5), (K_REP, 3), (K_NOT, 3), (K_PRATT, 2)];
const W_PRATT: &[(u32, usize)] = &[(K_PUB, 4), (K_AND, 4), (K_TOK, 5), (K_PRATT, 14), (K_LAYER, 2), (K_OPT, 2), (K_RULE, 4), (K_PREV, 1), (K_NOT, 1)];
const W_INJECT: &[(u32, usize)] = &[(K_PUB, 8), (K_OR, 4), (K_AND, 5), (K_TOK, 5), (K_INJECT, 14), (K_PRATT, 5), (K_OPT, 3), (K_REP, 3), (K_RULE, 4), (K_COMMIT, 2), (K_NOT, 1), (K_LAYER, 1)];
const W_NODES: &[(u32, usize)] = &[(K_PUB, 12), (K_OR, 4), (K_AND, 8), (K_COMMIT, 5), (K_TOK, 6), (K_OPT, 3), (K_REP, 4), (K_SKIP, 3), (K_LAYER, 2), (K_CTX, 2), (K_RULE, 4)];

fn arith(ops: &[(u32, u32, u32, bool)], prefixes: &[(u32, u32, u32)]) -> Vec<G> {
    // 0 file, 1 pratt, 2 atom a, 3 token a, 4.. operators
    let mut g = vec![
        G::Pub { ty: FILE, body: 1, rep: false },
        G::Pratt { atoms: vec![], prefixes: vec![], infixes: vec![] },
        G::Pub { ty: N0, body: 3, rep: false },
        G::Tok(A),
    ];
    let mut pf = vec![];
    let mut inf = vec![];
    for (k, (tok, ty, p)) in prefixes.iter().cloned().enumerate() {
        g.push(G::Tok(tok));
        pf.push((ty, g.len() - 1, p));
        let _ = k;
    }
    for (tok, ty, p, r) in ops.iter().cloned() {
        g.push(G::Tok(tok));
        inf.push((ty, g.len() - 1, p, r));
    }
    g[1] = G::Pratt { atoms: vec![2], prefixes: pf, infixes: inf };
    g
}

/// C14 from the statement: operators of a right operand bind tighter, equal priority groups left
fn check_precedence(gr: Vec<G>, text: String) -> Result<bool, String> {
    let lang = make_lang(&std_rules(), &gr, binders()[0]);
    let file = lang.parse(text.clone());
    let (pf, inf) = match &gr[1] {
        G::Pratt { prefixes, infixes, .. } => (prefixes.clone(), infixes.clone()),
        _ => unreachable!(),
    };
    let infix = |ty: u32| inf.iter().find(|x| x.0 == ty).cloned();
    let prefix = |ty: u32| pf.iter().find(|x| x.0 == ty).cloned();
    // operators that end at the right edge of the operand are free to take what follows
    fn go(n: Node, infix: &dyn Fn(u32) -> Option<(u32, usize, u32, bool)>, prefix: &dyn Fn(u32) -> Option<(u32, usize, u32)>, min: u32) -> Check {
        let ty = n.ty().0;
        let cs: Vec<Node> = n.children().collect();
        if let Some((_, _, p, rhs)) = infix(ty) {
            if p < min {
                return Err(format!("operator {} of priority {} inside an operand that allows {}", ty, p, min));
            }
            if cs.len() != if rhs { 3 } else { 2 } {
                return Err(format!("operator node {} has {} parts", ty, cs.len()));
            }
            go(cs[0], infix, prefix, min)?;
            if rhs {
                go(cs[2], infix, prefix, p + 1)?;
            }
        } else if let Some((_, _, p)) = prefix(ty) {
            same!(cs.len(), 2, "parts of a prefix operator");
            go(cs[1], infix, prefix, p)?;
        }
        Ok(())
    }
    for c in file.root().children() {
        go(c, &infix, &prefix, 0)?;
    }
    check_parse(gr, 0, vec![text])
}

pub fn c14() -> Vec<Phase> {
    vec![
        phase("tables", 5 * 5 * 4 * 4 * 8, |i, g| {
            // two binary operators, a prefix and a postfix, all small priorities
            let p = |k: u64| (i / 4u64.pow(k as u32) % 4) as u32;
            let gr = arith(&[(PLUS, N0 + 1, p(0), true), (STAR, N0 + 2, p(1), true), (B, N0 + 3, p(2), false)], &[(C, N0 + 4, p(3) + 1)]);
            let mut s = String::new();
            for _ in 0..g.range(1, 7) {
                if g.chance(1, 4) {
                    s.push('c');
                }
                if !g.chance(1, 12) {
                    s.push('a');
                }
                while g.chance(1, 5) {
                    s.push('b');
                }
                s.push_str(g.pick::<&str>(&["+", "*"]));
            }
            if g.chance(4, 5) {
                s.push('a');
            }
            Some(case(format!("{} {:?}", pretty(&gr), s), move || check_precedence(gr, s)))
        }),
        phase("plain", INF, |_, g| {
            let mut ops = vec![];
            let toks = [PLUS, STAR, B, LP];
            for k in 0..g.range(1, 4) {
                ops.push((toks[k % 4], N0 + 1 + k as u32, g.below(6) as u32, g.chance(4, 5)));
            }
            if g.chance(1, 3) {
                // the same token twice: the first one listed that applies is used
                ops.push((PLUS, N0 + 6, g.below(6) as u32, g.chance(1, 2)));
            }
            let mut pf = vec![];
            for k in 0..g.below(3) {
                pf.push(([C, RP][k], N0 + 8 + k as u32, g.range(0, 5) as u32));
            }
            let gr = arith(&ops, &pf);
            let mut s = String::new();
            for _ in 0..g.range(1, 8) {
                s.push_str(g.pick::<&str>(&["a", "a", "a", "a", "+", "*", "b", "(", "c", ")", "a+", "a*", "+a", "*a", "ca"]));
            }
            Some(case(format!("{} {:?}", pretty(&gr), s), move || check_precedence(gr, s)))
        }),
        grammar_phase("random", W_PRATT, 3, 0, Some(0)),
    ]
}

pub fn c13() -> Vec<Phase> {
    vec![
        grammar_phase("plain", W_PLAIN, 3, 0, Some(0)),
        grammar_phase("all", W_ALL, 3, 1, Some(0)),
        grammar_phase("calls", W_CALL, 3, 0, Some(0)),
        grammar_phase("prev", W_PREV, 3, 0, Some(0)),
        grammar_phase("inject", W_INJECT, 3, 0, Some(0)),
        grammar_phase("deep", W_ALL, 5, 1, Some(0)),
    ]
}

pub fn c12() -> Vec<Phase> {
    vec![
        grammar_phase("state", W_STATE, 4, 0, Some(0)),
        grammar_phase("all", W_ALL, 4, 0, Some(0)),
        grammar_phase("shallow", W_STATE, 3, 0, Some(0)),
    ]
}

pub fn c15() -> Vec<Phase> {
    vec![
        grammar_phase("inject", W_INJECT, 3, 3, None),
        grammar_phase("nodes", W_NODES, 3, 5, None),
        grammar_phase("deep", W_NODES, 5, 3, None),
    ]
}

fn check_lossless(gr: Vec<G>, binder: usize, texts: Vec<String>) -> Result<bool, String> {
    let b = binders()[binder];
    let lang = make_lang(&std_rules(), &gr, b);
    let mut any = false;
    for text in &texts {
        match STD.with(|s| ref_tree(&gr, b, s, text)) {
            Ok(_) => {}
            Err(_) => continue,
        }
        let file = lang.parse(text.clone());
        check_tiling(&file, text)?;
        any = true;
    }
    Ok(any)
}

fn lossless_phase(name: &'static str, w: &'static [(u32, usize)], ws: usize, strict: bool) -> Phase {
    phase(name, INF, move |_, g| {
        let mut gr = None;
        for _ in 0..20 {
            gr = gen_grammar(g, w, 3);
            if gr.is_some() {
                break;
            }
        }
        let gr = gr?;
        let binder = g.below(binders().len());
        let mut texts: Vec<String> = (0..6).map(|_| gen_text(g, &gr, ws)).collect();
        for _ in 0..3 {
            texts.push(crate::text::gen_string(g, 8));
        }
        texts.push("".into());
        texts.push(" ".into());
        texts.push("\n#".into());
        Some(case(format!("grammar {} binder {} texts {:?}", pretty(&gr), binder, texts), move || {
            if strict { check_parse(gr, binder, texts) } else { check_lossless(gr, binder, texts) }
        }))
    })
}

pub fn c01() -> Vec<Phase> {
    vec![lossless_phase("all", W_ALL, 3, false), lossless_phase("nodes", W_NODES, 4, false), lossless_phase("inject", W_INJECT, 3, false)]
}

pub fn c02() -> Vec<Phase> {
    vec![lossless_phase("all", W_ALL, 2, true), lossless_phase("state", W_STATE, 1, true), lossless_phase("inject", W_INJECT, 2, true)]
}

// ------------------------------------------------------------------ C03, C04: lexers
fn flat_grammar() -> Vec<G> {
    vec![G::Pub { ty: FILE, body: 1, rep: false }, G::Rep(2), G::Any]
}

// decided by the token and the next character
const LOCAL: &[(u32, &str)] = &[
    (A, "[a-c]+"), (B, "[0-9]+"), (C, "if"), (PLUS, r"\+"), (STAR, r"\+=?"), (LP, r"\(|\)"), (RP, "[ \n]+"), (X, "x"), (KW, r"[A-Z][a-z]*"),
    (N0, "=="), (N0 + 1, "="), (N0 + 2, r"\p{Greek}+"), (N0 + 3, "é|漢"), (N0 + 4, "[a-z]"), (N0 + 5, r"'[a-z ]'"), (N0 + 6, "\\("), (N0 + 7, "[b-d]+"), (N0 + 8, "b+"), (N0 + 9, "x+"),
];
// any other lexer
const FAR: &[(u32, &str)] = &[(A, r#""[^"]*""#), (B, r"/\*([^*]|\*[^/])*\*/"), (C, r"[0-9]+(\.[0-9]+)?"), (PLUS, "abc"), (STAR, "q"), (LP, r"//[^\n]*"), (RP, "a|abab"), (X, r"\.\.\.|\.")];

fn gen_rules(g: &mut Rng, far: bool) -> Rules {
    let mut pool: Rules = LOCAL.to_vec();
    if far {
        pool.extend(FAR.iter().cloned());
    }
    let n = g.range(1, 8);
    let mut out = vec![];
    for _ in 0..n {
        let k = g.below(pool.len());
        out.push(pool.swap_remove(k));
    }
    // types may repeat
    if g.chance(1, 6) && out.len() > 1 {
        out[0].0 = out[1].0;
    }
    out.into_iter().map(|(t, r)| (if ws_like(t) { A } else { t }, r)).collect()
}

const LEX_PIECES: &[&str] = &["a", "b", "c", "abc", "0", "12", "if", "+", "+=", "(", ")", " ", "\n", "x", "xx", "A", "Ab", "==", "=", "α", "é", "漢", "'a'", "'", "$", "\"", "/*", "*/", ".", "..", "q", "q!", "qq", "//", "d", "z"];

fn gen_lex_text(g: &mut Rng, max: usize) -> String {
    let n = g.below(max + 1);
    (0..n).map(|_| *g.pick::<&str>(LEX_PIECES)).collect()
}

fn leaves(file: &File) -> Vec<(u32, String)> {
    file.root().children().map(|n| (n.ty().0, n.text().to_string())).collect()
}

fn check_lexing(rules: Rules, text: String) -> Result<bool, String> {
    let lang = make_lang(&rules, &flat_grammar(), binders()[0]);
    let file = lang.parse(text.clone());
    let got = leaves(&file);
    let want: Vec<(u32, String)> = ref_lex(&compile(&rules), &text).into_iter().map(|(t, s)| (t, s.to_string())).collect();
    same!(got, want, "tokens");
    if got.iter().any(|t| t.1.is_empty()) {
        return Err("an empty token".into());
    }
    check_tiling(&file, &text)?;
    Ok(got.len() > 1)
}

/// a lexer with hundreds of rules
fn many_rules(g: &mut Rng) -> (Rules, Vec<String>) {
    thread_local! {
        static WORDS: Vec<&'static str> = (0..26 * 20u8 as usize)
            .map(|i| -> &'static str { Box::leak(format!("{}{}", (b'a' + (i % 26) as u8) as char, (b'A' + (i / 26) as u8) as char).into_boxed_str()) })
            .collect();
    }
    const TYS: &[u32] = &[A, B, C, PLUS, STAR, LP, RP, X, KW, N0, N0 + 1, N0 + 2, N0 + 3];
    WORDS.with(|ws| {
        let n = *g.pick(&[100usize, 255, 256, 257, 300, 513]);
        let at = g.below(ws.len() - n + 1);
        let words: Vec<&'static str> = ws[at..at + n].to_vec();
        let shift = g.below(7);
        let rules = words.iter().enumerate().map(|(i, w)| (TYS[(i * 7 + i / 13 + shift) % TYS.len()], *w)).collect();
        let mut pieces: Vec<String> = vec!["$".to_string(), "z".to_string()];
        for _ in 0..6 {
            pieces.push(words[g.below(n)].to_string());
            pieces.push(words[n - 1 - g.below(n / 8)].to_string());
        }
        (rules, pieces)
    })
}

pub fn c03() -> Vec<Phase> {
    vec![phase("many rules", 24, |_, g| {
        let (rules, pieces) = many_rules(g);
        let text: String = (0..g.range(4, 20)).map(|_| g.pick(&pieces).clone()).collect();
        Some(case(format!("{} rules {:?}.. text {:?}", rules.len(), &rules[..3], text), move || check_lexing(rules, text)))
    }), phase("long", INF, |_, g| {
        let rules = gen_rules(g, true);
        let text = gen_lex_text(g, 300);
        Some(case(format!("rules {:?} text {:?}", rules, text), move || check_lexing(rules, text)))
    }), phase("lexers", INF, |_, g| {
        let rules = gen_rules(g, true);
        let text = gen_lex_text(g, 10);
        Some(case(format!("rules {:?} text {:?}", rules, text), move || check_lexing(rules, text)))
    })]
}

/// an edit that keeps most of the text, or an arbitrary one
pub fn gen_edit(g: &mut Rng, s: &str, pieces: &[&str]) -> Vec<EOp> {
    if g.chance(1, 8) {
        return gen_ops(g, s)
            .into_iter()
            .map(|o| match o {
                EOp::Ins(_) => EOp::Ins(g.pick::<&str>(pieces).to_string()),
                o => o,
            })
            .collect();
    }
    let bs = boundaries(s);
    let n = g.range(1, 3);
    let mut cuts: Vec<usize> = (0..2 * n).map(|_| *g.pick(&bs)).collect();
    cuts.sort();
    let mut ops = vec![];
    let mut at = 0;
    for k in 0..n {
        let (a, mut b) = (cuts[2 * k], cuts[2 * k + 1]);
        if g.chance(1, 2) {
            b = a;
        }
        if a > at || g.chance(1, 8) {
            ops.push(EOp::Copy(at, a));
        }
        for _ in 0..g.below(3) {
            ops.push(EOp::Ins(g.pick::<&str>(pieces).to_string()));
        }
        at = b;
    }
    if at < s.len() || g.chance(1, 4) {
        ops.push(EOp::Copy(at, s.len()));
    }
    if g.chance(1, 8) {
        ops.push(EOp::Copy(s.len(), s.len()));
    }
    ops
}

fn check_relex(rules: Rules, text: String, edits: Vec<Vec<EOp>>) -> Result<bool, String> {
    let lang = make_lang(&rules, &flat_grammar(), binders()[0]);
    let mut file = lang.parse(text.clone());
    let mut cur = text;
    for e in &edits {
        let new = apply_model(&cur, e);
        let f2 = file.edit(&to_edit(e));
        let want = leaves(&lang.parse(new.clone()));
        same!(leaves(&f2), want, "tokens of {:?} edited to {:?}", cur, new);
        check_tiling(&f2, &new)?;
        file = f2;
        cur = new;
    }
    Ok(!cur.is_empty())
}

pub fn c04() -> Vec<Phase> {
    const SMALL: &[&str] = &["a", "b", "c", "bc", "0", "1", "+", "+=", "=", " ", "x", "(", "é"];
    // good tokens, then a few error tokens, and an edit around them
    fn late_errors(g: &mut Rng) -> Option<Case> {
        const SMALL: &[&str] = &["==", "if", "a", "bc", "0", "1", "+", " ", "x", "é"];
        let mut rules = gen_rules(g, false);
        if g.chance(2, 3) {
            // tokens that become errors when they are cut
            rules.retain(|r| r.1 != "=" && r.1 != "[a-z]" && r.1 != "==" && r.1 != "if");
            rules.push((N0, "=="));
            rules.push((C, "if"));
        }
        let re = compile(&rules);
        let n = *g.pick(&[0usize, 3, 20, 40, 80, 160, 320]);
        let good: Vec<&str> = SMALL.iter().cloned().filter(|p| ref_lex(&re, p).iter().all(|t| t.0 != ERROR)).collect();
        if good.is_empty() {
            return None;
        }
        let mut text = String::new();
        for _ in 0..n {
            text.push_str(*g.pick::<&str>(&good));
        }
        let tail = text.len();
        let bad: Vec<&str> = SMALL.iter().cloned().filter(|p| !good.contains(p)).chain(vec!["$", "~"]).collect();
        for _ in 0..g.range(2, 8) {
            text.push_str(if g.chance(1, 2) { *g.pick::<&str>(&bad) } else { *g.pick::<&str>(&good) });
        }
        let bs: Vec<usize> = boundaries(&text).into_iter().filter(|b| *b >= tail).collect();
        let (a, b) = (*g.pick(&bs), *g.pick(&bs));
        let (a, b) = (a.min(b), a.max(b));
        let mut e = vec![EOp::Copy(0, a)];
        for _ in 0..g.below(3) {
            e.push(EOp::Ins(if g.chance(1, 2) { g.pick::<&str>(&bad) } else { g.pick::<&str>(&good) }.to_string()));
        }
        e.push(EOp::Copy(b, text.len()));
        Some(case(format!("rules {:?} text {:?} edits {:?}", rules, text, e), move || check_relex(rules, text, vec![e])))
    }
    fn one(g: &mut Rng, pieces: &'static [&'static str], max: usize) -> Option<Case> {
        let rules = gen_rules(g, false);
        // an old text without error tokens, mostly, or the short way is taken
        let text: String = if g.chance(5, 6) {
            let re = compile(&rules);
            (0..g.below(max)).map(|_| *g.pick::<&str>(pieces)).filter(|p| ref_lex(&re, p).iter().all(|t| t.0 != ERROR)).collect()
        } else {
            gen_lex_text(g, 10)
        };
        let mut edits = vec![];
        let mut cur = text.clone();
        for _ in 0..g.range(1, 3) {
            let e = gen_edit(g, &cur, pieces);
            cur = apply_model(&cur, &e);
            edits.push(e);
        }
        Some(case(format!("rules {:?} text {:?} edits {:?}", rules, text, edits), move || check_relex(rules, text, edits)))
    }
    vec![
        phase("edits", INF, |_, g| one(g, LEX_PIECES, 14)),
        phase("small", INF, |_, g| one(g, SMALL, 14)),
        phase("long", INF, |_, g| {
            let n = *g.pick(&[40usize, 80, 160, 320]);
            one(g, SMALL, n)
        }),
        phase("late errors", INF, |_, g| late_errors(g)),
    ]
}

// ------------------------------------------------------------------ C05
/// cached rules that are delimited: what they parse depends only on the tokens they consume
fn cached_grammar(g: &mut Rng) -> Vec<G> {
    // 0 file, 1 item
    let mut out: Vec<G> = vec![G::Eof, G::Eof];
    let add = |out: &mut Vec<G>, x: G| {
        out.push(x);
        out.len() - 1
    };
    let rp = add(&mut out, G::Tok(RP));
    let lp = add(&mut out, G::Tok(LP));
    let plus = add(&mut out, G::Tok(PLUS));
    let star = add(&mut out, G::Tok(STAR));
    let a = add(&mut out, G::Tok(A));
    let b = add(&mut out, G::Tok(B));
    let x = add(&mut out, G::Tok(X));
    let c = add(&mut out, G::Tok(C));
    let atom_a = add(&mut out, G::Pub { ty: N0, body: a, rep: false });
    let atom_x = if g.chance(1, 2) { add(&mut out, G::Cached(0)) } else { add(&mut out, G::Pub { ty: N0 + 1, body: x, rep: false }) };
    if let G::Cached(_) = out[atom_x] {
        // a cached single token
        let p = add(&mut out, G::Pub { ty: N0 + 1, body: x, rep: false });
        out[atom_x] = G::Cached(p);
    }
    // b item* c, maybe with an error in it
    let rep = add(&mut out, G::Rep(1));
    let commit = if g.chance(1, 2) { Some(1) } else { None };
    let open = if g.chance(1, 4) { add(&mut out, G::Ctx(KW, "bb".to_string())) } else { b };
    let seq = add(&mut out, G::And(vec![open, rep, c], commit));
    let block = add(&mut out, G::Pub { ty: N0 + 2, body: seq, rep: false });
    let block = if g.chance(2, 3) { add(&mut out, G::Cached(block)) } else { block };
    // + a? *   (fixed shape)
    let opt = add(&mut out, G::Opt(atom_a));
    let close = if g.chance(1, 4) { add(&mut out, G::Ctx(KW, "**".to_string())) } else { star };
    let seq = add(&mut out, G::And(vec![plus, opt, close], if g.chance(1, 3) { Some(1) } else { None }));
    let dec = add(&mut out, G::Pub { ty: N0 + 3, body: seq, rep: false });
    let dec = if g.chance(1, 2) { add(&mut out, G::Cached(dec)) } else { dec };
    // ( item* ): parsed as a layer or directly
    let rep2 = add(&mut out, G::Rep(1));
    let seq = add(&mut out, G::And(vec![lp, rep2, rp], if g.chance(1, 2) { Some(1) } else { None }));
    let paren = add(&mut out, G::Pub { ty: N0 + 4, body: seq, rep: false });
    let paren = if g.chance(2, 3) { add(&mut out, G::Cached(paren)) } else { paren };
    // an item that is only cached under a prefix
    let inj = add(&mut out, G::And(vec![a, dec], None));
    let mut alts = vec![inj, atom_a, atom_x, block, dec, paren];
    // the alternatives start with different tokens except `inj`, which is outside every cached rule
    if g.chance(1, 3) {
        alts.remove(0);
    }
    out[1] = G::Or(alts);
    let top = match g.below(5) {
        3 => {
            // the previous node is asked for after cached rules
            let star = add(&mut out, G::Pub { ty: N0 + 6, body: star, rep: false });
            let tys = (0..5).filter(|_| g.chance(1, 2)).map(|k| N0 + k).collect();
            let prev = add(&mut out, G::PrevIs(tys));
            let k = add(&mut out, G::And(vec![prev, star], None));
            let k = add(&mut out, G::Opt(k));
            let k = add(&mut out, G::And(vec![1, k], None));
            add(&mut out, G::Rep(k))
        }
        4 => {
            // a cached rule renames the node around it
            let body = add(&mut out, G::And(vec![x, x], None));
            let mark = add(&mut out, G::PubReplace { ty: N0 + 8, body });
            let mark = add(&mut out, G::Cached(mark));
            let k = add(&mut out, G::Or(vec![mark, x, plus]));
            let k = add(&mut out, G::And(vec![c, k], Some(1)));
            let k = add(&mut out, G::Pub { ty: N0 + 7, body: k, rep: true });
            let k = add(&mut out, G::Or(vec![k, 1]));
            add(&mut out, G::Rep(k))
        }
        0 => {
            let first = add(&mut out, G::Or(vec![a, x, b, plus, lp]));
            let k = add(&mut out, G::Skip(first, 1));
            add(&mut out, G::Rep(k))
        }
        1 => {
            // lookahead over cached rules
            let n = add(&mut out, G::Not(paren));
            let k = add(&mut out, G::And(vec![n, 1], None));
            let k2 = add(&mut out, G::Or(vec![k, 1]));
            add(&mut out, G::Rep(k2))
        }
        _ => {
            // a layer over cached rules
            let nrp = add(&mut out, G::Not(rp));
            let any = add(&mut out, G::Any);
            let body = add(&mut out, G::And(vec![nrp, any], None));
            let rep = add(&mut out, G::Rep(body));
            let inner = add(&mut out, G::Rep(1));
            let lay = add(&mut out, G::Layer(rep, inner));
            let l = add(&mut out, G::And(vec![lp, lay, rp], Some(1)));
            let l = add(&mut out, G::Pub { ty: N0 + 5, body: l, rep: false });
            let k = add(&mut out, G::Or(vec![l, 1]));
            add(&mut out, G::Rep(k))
        }
    };
    out[0] = G::Pub { ty: FILE, body: top, rep: false };
    out
}

fn check_reparse(gr: Vec<G>, binder: usize, text: String, edits: Vec<Vec<EOp>>) -> Result<bool, String> {
    let lang = make_lang(&std_rules(), &gr, binders()[binder]);
    let mut file = lang.parse(text.clone());
    let mut cur = text;
    for e in &edits {
        let new = apply_model(&cur, e);
        let want = tree_of(lang.parse(new.clone()).root());
        let f2 = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| file.edit(&to_edit(e)))) {
            Ok(f) => f,
            Err(_) => return Err(format!("editing {:?} to {:?} panics", cur, new)),
        };
        let got = tree_of(f2.root());
        if got != want {
            return Err(format!("{:?} edited to {:?}: got {}, expected {}", cur, new, show(&got), show(&want)));
        }
        check_tiling(&f2, &new)?;
        file = f2;
        cur = new;
    }
    Ok(true)
}

pub fn c05() -> Vec<Phase> {
    const PIECES: &[&str] = &["a", "b", "c", "+", "*", "(", ")", "x", " ", "\n", "#c\n", "+*", "ba", "bb", "**", "ac", "()", "(a)", "b c", "$"];
    vec![phase("edits", INF, |_, g| {
        let gr = cached_grammar(g);
        let binder = g.below(binders().len());
        let text = gen_text(g, &gr, 2);
        let mut edits = vec![];
        let mut cur = text.clone();
        for _ in 0..g.range(1, 4) {
            let e = gen_edit(g, &cur, PIECES);
            cur = apply_model(&cur, &e);
            if cur.len() > 200 {
                break;
            }
            edits.push(e);
        }
        Some(case(format!("grammar {} binder {} text {:?} edits {:?}", pretty(&gr), binder, text, edits), move || check_reparse(gr, binder, text, edits)))
    })]
}
