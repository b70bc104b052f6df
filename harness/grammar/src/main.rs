// C20: names and calls of a grammar file are resolved again from the bare syntax tree.
#[path = "../../common/mod.rs"]
#[macro_use]
pub mod common;

use common::*;
use fall_tree::{AstNode, Node, NodeType};
use fall_editor::Severity;
use lang_fall::{Analysis, CallKind, RefKind};
use lang_fall_syntax as syn;

pub fn kids<'f>(n: Node<'f>, ty: NodeType) -> Vec<Node<'f>> {
    n.children().filter(|c| c.ty() == ty).collect()
}
pub fn kid<'f>(n: Node<'f>, ty: NodeType) -> Option<Node<'f>> {
    n.children().find(|c| c.ty() == ty)
}
pub fn text(n: Node) -> String {
    n.text().to_string()
}
pub fn all<'f>(n: Node<'f>, out: &mut Vec<Node<'f>>) {
    out.push(n);
    for c in n.children() {
        all(c, out);
    }
}
const EXPRS: [NodeType; 6] = [syn::REF_EXPR, syn::CALL_EXPR, syn::BLOCK_EXPR, syn::OPT_EXPR, syn::REP_EXPR, syn::SEQ_EXPR];
pub fn exprs<'f>(n: Node<'f>) -> Vec<Node<'f>> {
    n.children().filter(|c| EXPRS.contains(&c.ty())).collect()
}
pub fn at(n: Node) -> String {
    let r = n.range();
    format!("{:?}@{}..{}", n.ty(), r.start().utf8_len(), r.end().utf8_len())
}

pub struct Oracle<'f> {
    pub rules: Vec<Node<'f>>,
    pub tokens: Vec<(String, Node<'f>)>,
    pub contexts: Vec<String>,
}

pub fn param_list<'f>(rule: Node<'f>) -> Option<Vec<Node<'f>>> {
    kid(rule, syn::PARAMETERS).map(|p| kids(p, syn::PARAMETER))
}

pub fn context_of(call: Node) -> Option<String> {
    let f = text(kid(call, syn::IDENT).unwrap());
    if f != "is_in" && f != "enter" && f != "exit" {
        return None;
    }
    let first = *exprs(call).first()?;
    let s = kid(first, syn::SIMPLE_STRING)?;
    let t = text(s);
    Some(t[1..t.len() - 1].to_string())
}

fn public_rule(rule: Node) -> bool {
    if kid(rule, syn::PUB).is_none() {
        return false;
    }
    let attrs: Vec<Node> = kid(rule, syn::ATTRIBUTES).map(|a| kids(a, syn::ATTRIBUTE)).unwrap_or_default();
    let named = |name: &str| attrs.iter().find(|a| text(kid(**a, syn::IDENT).unwrap()) == name).cloned();
    if named("pratt").is_some() {
        return false;
    }
    match named("type") {
        Some(a) => kid(a, syn::ATTRIBUTE_VALUE).is_some(),
        None => kid(rule, syn::IDENT).is_some(),
    }
}

pub type Errors = Vec<(u32, u32, String)>;
pub fn err(e: &mut Errors, n: Node, m: &str) {
    e.push((n.range().start().utf8_len() as u32, n.range().end().utf8_len() as u32, m.to_string()));
}

impl<'f> Oracle<'f> {
    pub fn new(root: Node<'f>, e: &mut Errors) -> Oracle<'f> {
        let mut rules: Vec<Node> = vec![];
        for r in kids(root, syn::SYN_RULE) {
            if let Some(id) = kid(r, syn::IDENT) {
                if rules.iter().any(|o| text(kid(*o, syn::IDENT).unwrap()) == text(id)) {
                    err(e, id, "Duplicate rule");
                } else {
                    rules.push(r);
                }
            }
        }
        let mut tokens = vec![];
        let mut types = vec![];
        if let Some(t) = kid(root, syn::TOKENIZER_DEF) {
            for l in kids(t, syn::LEX_RULE) {
                let ty = text(kid(l, syn::IDENT).unwrap());
                let name = match kid(l, syn::STRING).map(text) {
                    Some(ref s) if s.starts_with('\'') => s.clone(),
                    _ => ty.clone(),
                };
                if types.contains(&ty) {
                    err(e, l, "Duplicate token");
                }
                types.push(ty);
                tokens.push((name, l));
            }
        }
        let mut nodes = vec![];
        all(root, &mut nodes);
        let mut contexts: Vec<String> = nodes.iter().filter(|n| n.ty() == syn::CALL_EXPR).filter_map(|n| context_of(*n)).collect();
        contexts.sort();
        contexts.dedup();
        Oracle { rules, tokens, contexts }
    }
    pub fn rule(&self, name: &str) -> Option<Node<'f>> {
        self.rules.iter().find(|r| text(kid(**r, syn::IDENT).unwrap()) == name).cloned()
    }
    pub fn reference(&self, r: Node<'f>, e: &mut Errors) -> String {
        let name = text(kid(r, syn::IDENT).or(kid(r, syn::SIMPLE_STRING)).unwrap());
        let mut up = r;
        while up.ty() != syn::SYN_RULE {
            up = up.parent().unwrap();
        }
        if let Some(ps) = param_list(up) {
            if let Some(p) = ps.iter().find(|p| text(kid(**p, syn::IDENT).unwrap()) == name) {
                return format!("param {}", at(*p));
            }
        }
        if let Some(r) = self.rule(&name) {
            return format!("rule {}", at(r));
        }
        // the last one, if there are several
        if let Some((_, l)) = self.tokens.iter().rev().find(|(n, _)| *n == name) {
            return format!("token {}", at(*l));
        }
        let parent = r.parent().unwrap();
        if !(parent.ty() == syn::CALL_EXPR && context_of(parent).is_some() && exprs(parent)[0] == r) {
            err(e, r, "Unresolved reference");
        }
        "none".to_string()
    }
    pub fn call(&self, c: Node<'f>, e: &mut Errors) -> String {
        let ident = kid(c, syn::IDENT).unwrap();
        let args = exprs(c);
        let f = text(ident);
        let builtin = match f.as_str() {
            "any" | "commit" | "eof" => Some(0),
            "not" | "is_in" => Some(1),
            "layer" | "with_skip" | "inject" | "enter" | "exit" => Some(2),
            _ => None,
        };
        if let Some(n) = builtin {
            if n != args.len() {
                err(e, c, &format!("Wrong number of arguments, expected {}, got {}", n, args.len()));
            }
            if args.len() < n {
                return "none".to_string();
            }
            let mut what = f.clone();
            let mut rest = &args[..n];
            if f == "is_in" || f == "enter" || f == "exit" {
                match context_of(c) {
                    Some(ctx) => {
                        what += &format!(" {}", self.contexts.iter().position(|x| *x == ctx).unwrap());
                        rest = &rest[1..];
                    }
                    None => {
                        err(e, args[0], "Context should be a single quoted string");
                        return "none".to_string();
                    }
                }
            }
            for a in rest {
                what += &format!(" {}", at(*a));
            }
            return what;
        }
        if f == "prev_is" {
            let mut what = f;
            for a in args {
                let r = if a.ty() == syn::REF_EXPR { self.reference(a, &mut vec![]) } else { "none".to_string() };
                let rule = if r.starts_with("rule ") { self.rules.iter().find(|x| format!("rule {}", at(**x)) == r) } else { None };
                match rule {
                    Some(x) if public_rule(*x) => what += &format!(" {}", at(*x)),
                    _ => err(e, c, "<prev_is> arguments must be public rules"),
                }
            }
            return what;
        }
        if let Some(r) = self.rule(&f) {
            if let Some(ps) = param_list(r) {
                if ps.len() != args.len() {
                    err(e, c, &format!("Expected {} arguments, got {}", ps.len(), args.len()));
                }
                let mut what = format!("call {}", at(r));
                for (p, a) in ps.iter().zip(args.iter()) {
                    what += &format!(" {}={}", at(*p), at(*a));
                }
                return what;
            }
        }
        err(e, ident, "Unresolved reference");
        "none".to_string()
    }
}

fn show_ref(r: Option<RefKind>) -> String {
    match r {
        None => "none".to_string(),
        Some(RefKind::Param(p)) => format!("param {}", at(p.node())),
        Some(RefKind::RuleReference(p)) => format!("rule {}", at(p.node())),
        Some(RefKind::Token(p)) => format!("token {}", at(p.node())),
    }
}

fn show_call(c: Option<CallKind>) -> String {
    match c {
        None => "none".to_string(),
        Some(CallKind::Eof) => "eof".to_string(),
        Some(CallKind::Any) => "any".to_string(),
        Some(CallKind::Commit) => "commit".to_string(),
        Some(CallKind::Not(a)) => format!("not {}", at(a.node())),
        Some(CallKind::Layer(a, b)) => format!("layer {} {}", at(a.node()), at(b.node())),
        Some(CallKind::WithSkip(a, b)) => format!("with_skip {} {}", at(a.node()), at(b.node())),
        Some(CallKind::Inject(a, b)) => format!("inject {} {}", at(a.node()), at(b.node())),
        Some(CallKind::Enter(i, a)) => format!("enter {} {}", i, at(a.node())),
        Some(CallKind::Exit(i, a)) => format!("exit {} {}", i, at(a.node())),
        Some(CallKind::IsIn(i)) => format!("is_in {}", i),
        Some(CallKind::PrevIs(rs)) => {
            let mut s = "prev_is".to_string();
            for r in rs.iter() {
                s += &format!(" {}", at(r.node()));
            }
            s
        }
        Some(CallKind::RuleCall(r, ps)) => {
            let mut s = format!("call {}", at(r.node()));
            for (p, a) in ps.iter() {
                s += &format!(" {}={}", at(p.node()), at(a.node()));
            }
            s
        }
    }
}

fn is_resolution(m: &str) -> bool {
    m == "Unresolved reference" || m == "Duplicate rule" || m == "Duplicate token"
        || m.starts_with("Wrong number of arguments") || m.starts_with("Expected ")
        || m.starts_with("Context should") || m.starts_with("<prev_is>")
}

fn check(source: &str, g: &mut Rng) -> Result<bool, String> {
    let file = lang_fall::parse(source.to_string());
    let root = file.root();
    let mut nodes = vec![];
    all(root, &mut nodes);
    // expressions outside of rules are not resolved by anything
    let mut e: Errors = vec![];
    let oracle = Oracle::new(root, &mut e);
    let mut refs = vec![];
    let mut calls = vec![];
    for n in nodes.iter() {
        if n.ty() == syn::REF_EXPR {
            refs.push((*n, oracle.reference(*n, &mut e)));
        } else if n.ty() == syn::CALL_EXPR {
            calls.push((*n, oracle.call(*n, &mut e)));
        }
    }
    e.sort();
    let a = Analysis::new(lang_fall::ast(&file));
    let first = g.chance(1, 2);
    for round in 0..2 {
        if round == (first as usize) {
            let mut got: Errors = a.collect_all_diagnostics().into_iter()
                .filter(|d| if let Severity::Error = d.severity { is_resolution(&d.message) } else { false })
                .map(|d| (d.range.start().utf8_len() as u32, d.range.end().utf8_len() as u32, d.message)).collect();
            got.sort();
            same!(got, e, "errors reported");
        } else {
            for (n, want) in refs.iter() {
                let r = a.resolve_reference(syn::RefExpr::wrap(*n).unwrap());
                same!(show_ref(r), *want, "reference {} `{}`", at(*n), text(*n));
            }
            for (n, want) in calls.iter() {
                let r = a.resolve_call(syn::CallExpr::wrap(*n).unwrap());
                same!(show_call(r), *want, "call {} `{}`", at(*n), text(*n));
            }
        }
    }
    let mut got: Errors = a.collect_all_diagnostics().into_iter()
        .filter(|d| if let Severity::Error = d.severity { is_resolution(&d.message) } else { false })
        .map(|d| (d.range.start().utf8_len() as u32, d.range.end().utf8_len() as u32, d.message)).collect();
    got.sort();
    same!(got, e, "errors reported the second time");
    Ok(!refs.is_empty() || !calls.is_empty())
}

const NAMES: &[&str] = &["a", "b", "ab", "x", "any", "eof", "not", "enter", "r", "node", "prev_is", "é"];
const STRINGS: &[&str] = &["'a'", "'+'", "'c'", "'d'", "''", "'é'"];
const BUILTIN: &[&str] = &["any", "commit", "eof", "not", "is_in", "layer", "with_skip", "inject", "enter", "exit", "prev_is"];

pub fn name(g: &mut Rng) -> &'static str {
    if g.chance(3, 4) { *g.pick(&NAMES[..4]) } else { *g.pick(NAMES) }
}

pub fn expr(g: &mut Rng, depth: usize, o: &mut String) {
    let k = if depth == 0 { g.below(4) } else { g.below(10) };
    match k {
        0 | 1 => o.push_str(name(g)),
        2 => o.push_str(*g.pick(STRINGS)),
        3 => o.push_str(*g.pick(&["<eof>", "<any>", "<commit>", "<not a>", "<is_in 'c'>"])),
        4..=7 => {
            o.push('<');
            let f = if g.chance(2, 3) { *g.pick(BUILTIN) } else { name(g) };
            o.push_str(f);
            if (f == "enter" || f == "exit" || f == "is_in") && g.chance(4, 5) {
                o.push(' ');
                o.push_str(*g.pick(&STRINGS[..4]));
                if g.chance(1, 8) {
                    o.push('?');
                }
            }
            for _ in 0..g.below(4) {
                o.push(' ');
                expr(g, depth - 1, o);
            }
            o.push('>');
        }
        8 => {
            o.push('{');
            for i in 0..g.below(3) {
                if i > 0 { o.push('|'); }
                for _ in 0..g.below(3) {
                    o.push(' ');
                    expr(g, depth - 1, o);
                }
            }
            o.push('}');
        }
        _ => {
            expr(g, depth - 1, o);
            o.push(if g.chance(1, 2) { '?' } else { '*' });
        }
    }
}

fn attrs(g: &mut Rng, o: &mut String) {
    if g.chance(1, 4) {
        o.push_str(*g.pick(&["#[pratt] ", "#[type(foo)] ", "#[type] ", "#[cached] ", "#[atom] ", "#[bin(1), type(z)] "]));
    }
}

pub fn grammar(g: &mut Rng, small: bool) -> String {
    let mut o = String::new();
    let forms = g.range(1, if small { 3 } else { 8 });
    for _ in 0..forms {
        if g.chance(1, 5) {
            o.push_str("tokenizer {");
            for _ in 0..g.below(5) {
                o.push_str(if g.chance(1, 5) { " #[skip] " } else { " " });
                o.push_str(name(g));
                if g.chance(9, 10) {
                    o.push(' ');
                    o.push_str(*g.pick(&["'a'", "'+'", "'c'", "r\"a\"", "r\"'\"", "'é'"]));
                }
            }
            o.push_str(" }\n");
            continue;
        }
        if g.chance(1, 12) {
            o.push_str("ast {");
            for _ in 0..g.below(3) {
                o.push_str(*g.pick(&[" node", " trait", " class"]));
                if g.chance(9, 10) {
                    o.push(' ');
                    o.push_str(name(g));
                    if g.chance(1, 3) { o.push_str(": "); o.push_str(name(g)); }
                }
                o.push_str(*g.pick(&[" { }", " { a b? }", " { x a.b }", ""]));
            }
            o.push_str(" }\n");
            continue;
        }
        attrs(g, &mut o);
        if g.chance(1, 2) { o.push_str("pub "); }
        o.push_str("rule ");
        if g.chance(19, 20) { o.push_str(name(g)); }
        if g.chance(1, 2) {
            o.push('(');
            for i in 0..g.below(4) {
                if i > 0 { o.push_str(", "); }
                o.push_str(name(g));
            }
            o.push(')');
        }
        o.push_str(" {");
        for _ in 0..g.below(if small { 3 } else { 5 }) {
            o.push(' ');
            let d = g.below(4);
            expr(g, d, &mut o);
        }
        o.push_str(" }\n");
    }
    o
}

fn broken(g: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..g.range(1, 4) {
        let i = g.below(cs.len() + 1);
        match g.below(4) {
            0 if i < cs.len() => { cs.remove(i); }
            1 => cs.insert(i, *g.pick(&['{', '}', '<', '>', '(', ')', '|', '\'', '?', '*', ',', ' ', 'a', '#', '"', '\n'])),
            2 => {
                let j = (i + g.below(6)).min(cs.len());
                cs.drain(i.min(j)..j);
            }
            _ => {
                let word = *g.pick(&[" rule ", " pub ", " <not ", " tokenizer ", " ast ", " node ", " test ", " 'a' ", " (x", "<eof"]);
                for (k, c) in word.chars().enumerate() {
                    cs.insert((i + k).min(cs.len()), c);
                }
            }
        }
    }
    cs.into_iter().collect()
}

fn c20() -> Vec<Phase> {
    fn ph(name: &'static str, small: bool, cut: bool, count: u64) -> Phase {
        phase(name, count, move |i, g| {
            let mut s = grammar(g, small);
            if cut {
                s = broken(g, &s);
            }
            let seed = g.next() ^ i;
            Some(case(s.clone(), move || check(&s, &mut Rng::new(seed, 1, 1))))
        })
    }
    vec![ph("small", true, false, 1500), ph("small_broken", true, true, 1500), ph("grammars", false, false, INF), ph("broken", false, true, INF)]
}

fn main() {
    common::main_with(|p| if p == "C20" { Some(c20()) } else { None })
}
