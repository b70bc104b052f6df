// C21: what is generated for a grammar file is read back and compared with the grammar, read from the bare tree.
#[allow(dead_code)]
#[macro_use]
#[path = "../../grammar/src/main.rs"]
mod grammar;

use fall_parse::{Expr, ExprRef};
use fall_tree::Node;
use grammar::common::{self, *};
use grammar::{all, at, exprs, kid, kids, param_list, text, Oracle};
use lang_fall_syntax as syn;
use std::collections::HashMap;

const SLOTS: usize = 16;

struct Want<'f> {
    o: Oracle<'f>,
    by_at: HashMap<String, Node<'f>>,
    rules: Vec<Node<'f>>,
    params: Vec<Node<'f>>,
    types: Vec<(String, bool)>,
    lex: Vec<Node<'f>>,
}

fn attr<'f>(n: Node<'f>, name: &str) -> Option<Node<'f>> {
    kids(kid(n, syn::ATTRIBUTES)?, syn::ATTRIBUTE).into_iter().find(|a| text(kid(*a, syn::IDENT).unwrap()) == name)
}
fn value(a: Node) -> Option<String> {
    kid(a, syn::ATTRIBUTE_VALUE).map(text)
}
fn body(raw: &str) -> String {
    let q = if raw.starts_with('\'') { '\'' } else { '"' };
    raw[raw.find(q).unwrap() + 1..raw.rfind(q).unwrap()].to_string()
}
fn ty_name(r: Node) -> Option<String> {
    if kid(r, syn::PUB).is_none() || attr(r, "pratt").is_some() {
        return None;
    }
    match attr(r, "type") {
        Some(a) => value(a),
        None => kid(r, syn::IDENT).map(text),
    }
}
fn re_of(raw: &str) -> String {
    let b = body(raw);
    if raw.starts_with('r') {
        return b;
    }
    let mut s = String::new();
    for c in b.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            s.push('\\');
        }
        s.push(c);
    }
    s
}

type R = Result<String, String>;

impl<'f> Want<'f> {
    fn new(root: Node<'f>) -> Want<'f> {
        let mut nodes = vec![];
        all(root, &mut nodes);
        let rules = kids(root, syn::SYN_RULE);
        let lex = kid(root, syn::TOKENIZER_DEF).map(|t| kids(t, syn::LEX_RULE)).unwrap_or_default();
        let mut types: Vec<(String, bool)> = lex.iter().map(|l| (text(kid(*l, syn::IDENT).unwrap()), attr(*l, "skip").is_some())).collect();
        types.extend(rules.iter().filter(|r| kid(**r, syn::PUB).is_some() && attr(**r, "type").is_none()).filter_map(|r| kid(*r, syn::IDENT)).map(|n| (text(n), false)));
        Want {
            o: Oracle::new(root, &mut vec![]),
            by_at: nodes.iter().map(|n| (at(*n), *n)).collect(),
            params: rules.iter().filter_map(|r| param_list(*r)).flat_map(|ps| ps).collect(),
            rules, types, lex,
        }
    }
    fn ty(&self, name: &str) -> Result<usize, String> {
        self.types.iter().position(|t| t.0 == name).map(|i| i + 1).ok_or(format!("no type {}", name))
    }
    fn rule_no(&self, at_: &str) -> usize {
        self.rules.iter().position(|r| at(*r) == at_).unwrap()
    }
    fn param_no(&self, at_: &str) -> Result<usize, String> {
        let i = self.params.iter().position(|r| at(*r) == at_).unwrap();
        if i < SLOTS { Ok(i) } else { Err("too many parameters".to_string()) }
    }
    fn ctx(&self, s: &str) -> Result<usize, String> {
        let i: usize = s.parse().unwrap();
        if i < SLOTS { Ok(i) } else { Err("too many contexts".to_string()) }
    }
    fn expr(&self, e: Node<'f>) -> R {
        let parts = exprs(e);
        let is_commit = |p: &Node<'f>| p.ty() == syn::CALL_EXPR && text(kid(*p, syn::IDENT).unwrap()) == "commit";
        if e.ty() == syn::BLOCK_EXPR {
            let v: Result<Vec<String>, String> = parts.iter().map(|p| self.expr(*p)).collect();
            return Ok(format!("or[{}]", v?.join(", ")));
        }
        if e.ty() == syn::SEQ_EXPR {
            let v: Result<Vec<String>, String> = parts.iter().filter(|p| !is_commit(p)).map(|p| self.expr(*p)).collect();
            return Ok(format!("and[{}]@{:?}", v?.join(", "), parts.iter().position(|p| is_commit(p))));
        }
        if e.ty() == syn::OPT_EXPR {
            return Ok(format!("opt({})", self.expr(parts[0])?));
        }
        if e.ty() == syn::REP_EXPR {
            return Ok(format!("rep({})", self.expr(parts[0])?));
        }
        if e.ty() == syn::REF_EXPR {
            let r = self.o.reference(e, &mut vec![]);
            let w: Vec<&str> = r.split(' ').collect();
            return match w[0] {
                "param" => Ok(format!("var {}", self.param_no(w[1])?)),
                "rule" => Ok(format!("={}", self.rule_no(w[1]))),
                "token" => {
                    let l = self.by_at[w[1]];
                    let t = self.ty(&text(kid(l, syn::IDENT).unwrap()))?;
                    if attr(l, "contextual").is_none() {
                        return Ok(format!("tok {}", t));
                    }
                    match kid(l, syn::STRING).map(text) {
                        Some(ref raw) if !raw.starts_with('r') => Ok(format!("ctx {} {:?}", t, body(raw))),
                        _ => Err("contextual token without text".to_string()),
                    }
                }
                _ => Err("unresolved reference".to_string()),
            };
        }
        let c = self.o.call(e, &mut vec![]);
        let w: Vec<&str> = c.split(' ').collect();
        let sub = |i: usize| self.expr(self.by_at[w[i]]);
        match w[0] {
            "eof" | "any" => Ok(c.clone()),
            "not" => Ok(format!("not({})", sub(1)?)),
            "layer" | "with_skip" | "inject" => Ok(format!("{}({}, {})", w[0], sub(1)?, sub(2)?)),
            "enter" | "exit" => Ok(format!("{} {}({})", w[0], self.ctx(w[1])?, sub(2)?)),
            "is_in" => Ok(format!("is_in {}", self.ctx(w[1])?)),
            "prev_is" => {
                let v: Result<Vec<String>, String> = w[1..].iter().map(|r| Ok(self.ty(&ty_name(self.by_at[*r]).unwrap())?.to_string())).collect();
                Ok(format!("prev_is[{}]", v?.join(", ")))
            }
            "call" => {
                let mut v = vec![];
                for a in &w[2..] {
                    let mut pa = a.splitn(2, '=');
                    v.push(format!("{}={}", self.param_no(pa.next().unwrap())?, self.expr(self.by_at[pa.next().unwrap()])?));
                }
                Ok(format!("call {}[{}]", self.rule_no(w[1]), v.join(", ")))
            }
            _ => Err("call".to_string()),
        }
    }
    fn pratt(&self, block: Node<'f>) -> R {
        let (mut a, mut p, mut i) = (vec![], vec![], vec![]);
        for alt in exprs(block) {
            let first = *exprs(alt).first().ok_or("empty alternative")?;
            if first.ty() != syn::REF_EXPR {
                return Err("not a reference".to_string());
            }
            let r = self.o.reference(first, &mut vec![]);
            if !r.starts_with("rule ") {
                return Err("not a rule".to_string());
            }
            let r = self.by_at[&r[5..]];
            let ty = self.ty(&ty_name(r).ok_or("no type")?)?;
            let kind = ["atom", "postfix", "prefix", "bin"].iter().find(|k| attr(r, k).is_some()).ok_or("no kind")?;
            let prio: Option<u32> = value(attr(r, kind).unwrap()).and_then(|v| v.parse().ok());
            let b = *exprs(r).first().unwrap();
            if *kind == "atom" {
                a.push(format!("={}", self.rule_no(&at(r))));
                continue;
            }
            let alts = exprs(b);
            if alts.len() != 1 {
                return Err("alternatives".to_string());
            }
            let parts = exprs(alts[0]);
            let (n, k) = match *kind { "postfix" => (2, 1), "prefix" => (2, 0), _ => (3, 1) };
            if parts.len() != n {
                return Err("parts".to_string());
            }
            let op = self.expr(parts[k])?;
            let prio = if *kind == "bin" { prio.ok_or("no priority")? } else { prio.unwrap_or(999) };
            match *kind {
                "prefix" => p.push(format!("{} {} {}", ty, op, prio)),
                _ => i.push(format!("{} {} {} {}", ty, op, prio, *kind == "bin")),
            }
        }
        Ok(format!("pratt[{}][{}][{}]", a.join("; "), p.join("; "), i.join("; ")))
    }
    fn rule(&self, r: Node<'f>) -> R {
        let b = *exprs(r).first().unwrap();
        let x = if attr(r, "pratt").is_some() { self.pratt(b)? } else { self.expr(b)? };
        let ty = match ty_name(r) { Some(n) => Some(self.ty(&n)?), None => None };
        Ok(match (ty, attr(r, "replaces").is_some(), attr(r, "cached").is_some()) {
            (Some(t), true, _) => format!("replace {} {}", t, x),
            (Some(t), false, c) => format!("pub {} {} {}", t, attr(r, "replaceable").is_some(), if c { format!("cached({})", x) } else { x }),
            (None, true, _) => return Err("replaces without a type".to_string()),
            (None, false, true) => format!("cached({})", x),
            (None, false, false) => x,
        })
    }
    fn lexer(&self) -> Result<Vec<String>, String> {
        self.lex.iter().filter(|l| attr(**l, "contextual").is_none()).map(|l| {
            let ss = kids(*l, syn::STRING);
            let raw = text(*ss.first().ok_or("no regular expression")?);
            let f = match ss.get(1) { Some(s) => format!("Some({})", body(&text(*s))), None => "None".to_string() };
            Ok(format!("rt::LexRule::new({}, {:?}, {}),", text(kid(*l, syn::IDENT).unwrap()).to_uppercase(), re_of(&raw), f))
        }).collect()
    }
}

struct Got<'e> {
    es: &'e [Expr],
    rules: usize,
    types: usize,
}

impl<'e> Got<'e> {
    fn at(&self, r: ExprRef, above: usize) -> R {
        let r = r.0 as usize;
        if r < self.rules {
            return Ok(format!("={}", r));
        }
        if r >= above {
            return Err(format!("expression {} refers to {}", above, r));
        }
        self.expr(r)
    }
    fn ty(&self, t: fall_parse::NodeTypeRef) -> Result<usize, String> {
        if 1 <= t.0 && t.0 as usize <= self.types { Ok(t.0 as usize) } else { Err(format!("there is no type {}", t.0)) }
    }
    fn rule(&self, r: ExprRef) -> R {
        if (r.0 as usize) < self.rules { Ok(r.0.to_string()) } else { Err(format!("there is no rule {}", r.0)) }
    }
    fn slot(&self, r: u32) -> R {
        if (r as usize) < SLOTS { Ok(r.to_string()) } else { Err(format!("slot {}", r)) }
    }
    fn expr(&self, k: usize) -> R {
        let up = if k < self.rules { self.es.len() } else { k };
        let g = |r: &ExprRef| self.at(*r, up);
        let list = |v: &Vec<ExprRef>| -> R { Ok(v.iter().map(|r| g(r)).collect::<Result<Vec<_>, _>>()?.join(", ")) };
        Ok(match &self.es[k] {
            Expr::Pub { ty, body, replaceable } => format!("pub {} {} {}", self.ty(*ty)?, replaceable, g(body)?),
            Expr::PubReplace { ty, body } => format!("replace {} {}", self.ty(*ty)?, g(body)?),
            Expr::Or(v) => format!("or[{}]", list(v)?),
            Expr::And(v, c) => format!("and[{}]@{:?}", list(v)?, c),
            Expr::Token(t) => format!("tok {}", self.ty(*t)?),
            Expr::ContextualToken(t, s) => format!("ctx {} {:?}", self.ty(*t)?, s),
            Expr::Rep(x) => format!("rep({})", g(x)?),
            Expr::Opt(x) => format!("opt({})", g(x)?),
            Expr::Not(x) => format!("not({})", g(x)?),
            Expr::WithSkip(x, y) => format!("with_skip({}, {})", g(x)?, g(y)?),
            Expr::Layer(x, y) => format!("layer({}, {})", g(x)?, g(y)?),
            Expr::Inject(x, y) => format!("inject({}, {})", g(x)?, g(y)?),
            Expr::Eof => "eof".to_string(),
            Expr::Any => "any".to_string(),
            Expr::Enter(c, x) => format!("enter {}({})", self.slot(c.0)?, g(x)?),
            Expr::Exit(c, x) => format!("exit {}({})", self.slot(c.0)?, g(x)?),
            Expr::IsIn(c) => format!("is_in {}", self.slot(c.0)?),
            Expr::Var(a) => format!("var {}", self.slot(a.0)?),
            Expr::Call(r, v) => {
                let v: Result<Vec<String>, String> = v.iter().map(|(a, x)| Ok(format!("{}={}", self.slot(a.0)?, g(x)?))).collect();
                format!("call {}[{}]", self.rule(*r)?, v?.join(", "))
            }
            Expr::PrevIs(v) => {
                let v: Result<Vec<String>, String> = v.iter().map(|t| Ok(self.ty(*t)?.to_string())).collect();
                format!("prev_is[{}]", v?.join(", "))
            }
            Expr::Cached(x) => format!("cached({})", g(x)?),
            Expr::Pratt(t) => {
                let a: Result<Vec<String>, String> = t.atoms.iter().map(|r| Ok(format!("={}", self.rule(*r)?))).collect();
                let p: Result<Vec<String>, String> = t.prefixes.iter().map(|p| Ok(format!("{} {} {}", self.ty(p.ty)?, g(&p.op)?, p.priority))).collect();
                let i: Result<Vec<String>, String> = t.infixes.iter().map(|p| Ok(format!("{} {} {} {}", self.ty(p.ty)?, g(&p.op)?, p.priority, p.has_rhs))).collect();
                format!("pratt[{}][{}][{}]", a?.join("; "), p?.join("; "), i?.join("; "))
            }
        })
    }
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn between<'s>(s: &'s str, a: &str, b: &str) -> Result<&'s str, String> {
    let i = s.find(a).ok_or(format!("no {}", a))? + a.len();
    let j = s[i..].find(b).ok_or(format!("no {}", b))?;
    Ok(&s[i..i + j])
}

fn check(source: &str) -> Result<bool, String> {
    let file = lang_fall::parse(source.to_string());
    let root = file.root();
    let mut nodes = vec![];
    all(root, &mut nodes);
    let whole = nodes.iter().all(|n| {
        let ty = n.ty();
        ty != fall_tree::ERROR && (ty != syn::SYN_RULE || exprs(*n).first().map(|b| b.ty()) == Some(syn::BLOCK_EXPR))
            && (ty != syn::LEX_RULE || kid(*n, syn::STRING).is_some())
            && ((ty != syn::OPT_EXPR && ty != syn::REP_EXPR) || !exprs(*n).is_empty())
    });
    if !whole {
        return Ok(false);
    }
    let w = Want::new(root);
    let want: Result<Vec<String>, String> = w.rules.iter().map(|r| w.rule(*r)).collect();
    let lexer = if kid(root, syn::TOKENIZER_DEF).is_some() { w.lexer() } else { Err("no tokens".to_string()) };
    let a = lang_fall::Analysis::new(lang_fall::ast(&file));
    let got = fall_gen::generate(&a);
    let (want, lexer) = match (want, lexer) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => {
            if let Ok(_) = got {
                return Err(format!("generated for a wrong grammar: {}", e));
            }
            return Ok(true);
        }
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            if kid(root, syn::AST_DEF).is_some() && !want.is_empty() {
                return Ok(false);
            }
            return Err(format!("not generated: {}", e));
        }
    };
    let json = match between(&got, "let parser_json = r##\"", "\"##") {
        Ok(json) => json,
        Err(_) => return Ok(false),
    };
    let es: Vec<Expr> = fall_parse::runtime::parser_from_str(json);
    if es.len() < want.len() {
        return Err(format!("{} expressions for {} rules", es.len(), want.len()));
    }
    let g = Got { es: &es, rules: want.len(), types: w.types.len() };
    for (k, r) in want.iter().enumerate() {
        same!(g.expr(k)?, *r, "rule {}", k);
    }
    // the rest of the text, up to white space
    let flat = squeeze(&got);
    let mut need = vec![];
    let mut list = "rt::ERROR,".to_string();
    for (i, t) in w.types.iter().enumerate() {
        let n = t.0.to_uppercase();
        need.push(format!("pub const {}: rt::NodeType = rt::NodeType({});", n, 100 + i));
        need.push(format!("{} => rt::NodeTypeInfo {{ name: \"{}\", whitespace_like: {} }}", n, n, t.1));
        list += &format!("{},", n);
    }
    need.push(format!("node_types: vec![{}]", list));
    need.push(format!("rt::RegexLexer::new(vec![{}])", lexer.concat()));
    for n in need {
        if !flat.contains(&squeeze(&n)) {
            return Err(format!("not in what is generated: {}", n));
        }
    }
    Ok(true)
}

struct Names {
    rules: Vec<(String, usize)>,
    tokens: Vec<String>,
}

fn expr(g: &mut Rng, n: &Names, params: &[String], depth: usize, many: bool, o: &mut String) {
    let k = if depth == 0 { g.below(5) } else { g.below(12) };
    match k {
        0 | 1 => {
            let plain: Vec<&String> = n.rules.iter().filter(|r| r.1 == 0).map(|r| &r.0).collect();
            if plain.is_empty() { o.push_str("<any>") } else { o.push_str(&g.pick::<&String>(&plain[..])[..]) }
        }
        2 if !params.is_empty() => o.push_str(&g.pick::<String>(params)[..]),
        2 | 3 => if n.tokens.is_empty() { o.push_str("<eof>") } else { o.push_str(&g.pick::<String>(&n.tokens[..])[..]) },
        4 => {
            if g.chance(1, 40) { o.push_str("nothing") } else { o.push_str(*g.pick(&["<eof>", "<any>", "<commit>", "<is_in 'c'>"])) }
        }
        5 | 6 => {
            let f = *g.pick(&["not", "layer", "with_skip", "inject", "enter", "exit", "is_in", "prev_is"]);
            o.push_str(&format!("<{}", f));
            if f == "enter" || f == "exit" || f == "is_in" {
                if many { o.push_str(&format!(" 'c{}'", g.below(20))) } else { o.push_str(*g.pick(&[" 'c'", " 'd'", " 'a'"])) }
            }
            let args = match f { "not" | "enter" | "exit" => 1, "is_in" => 0, "prev_is" => 0, _ => 2 };
            for _ in 0..args {
                o.push(' ');
                expr(g, n, params, depth - 1, many, o);
            }
            if f == "prev_is" {
                for _ in 0..g.below(3) {
                    o.push(' ');
                    if n.rules.is_empty() { o.push_str("x") } else { o.push_str(&g.pick(&n.rules).0) }
                }
            }
            o.push('>');
        }
        7 => {
            let with: Vec<&(String, usize)> = n.rules.iter().filter(|r| r.1 > 0).collect();
            if with.is_empty() { o.push_str("<eof>"); return }
            let r = *g.pick(&with);
            o.push_str(&format!("<{}", r.0));
            let k = if g.chance(1, 40) { r.1 - 1 } else { r.1 };
            for _ in 0..k {
                o.push(' ');
                expr(g, n, params, depth - 1, many, o);
            }
            o.push('>');
        }
        8 | 9 => {
            o.push('{');
            for i in 0..g.range(1, 4) {
                if i > 0 { o.push('|'); }
                for _ in 0..g.below(4) {
                    o.push(' ');
                    expr(g, n, params, depth - 1, many, o);
                }
            }
            o.push('}');
        }
        _ => {
            expr(g, n, params, depth - 1, many, o);
            o.push(if g.chance(1, 2) { '?' } else { '*' });
        }
    }
}

fn good(g: &mut Rng, small: bool) -> String {
    let mut o = String::new();
    let mut n = Names { rules: vec![], tokens: vec![] };
    let many = g.chance(1, 15);
    if !g.chance(1, 40) {
        o.push_str("tokenizer {\n");
        for i in 0..g.below(if small { 3 } else { 7 }) {
            let ctx = g.chance(1, 4);
            if ctx { o.push_str(" #[contextual]") } else if g.chance(1, 4) { o.push_str(" #[skip]") }
            let name = if g.chance(1, 60) { "t0".to_string() } else { format!("t{}", i) };
            let re = if g.chance(1, if ctx { 12 } else { 2 }) { g.pick(&["r\"\\w+\"", "r#\"a\"b\"#", "r\"'\""]).to_string() }
                else { format!("'{}'", *g.pick(&["+", "a", "kw", "##", "\"##", "\"#", "\\\\", "é", "{", "\\'", "}}", "{{"])) };
            o.push_str(&format!(" {} {}", name, re));
            if g.chance(1, 8) { o.push_str(" 'parse_it'") }
            o.push('\n');
            n.tokens.push(if re.starts_with('\'') { re } else { name });
        }
        o.push_str("}\n");
    }
    let rules = if many { g.range(4, 10) } else { g.range(1, if small { 3 } else { 7 }) };
    for i in 0..rules {
        n.rules.push((format!("r{}", i), if g.chance(1, 4) { g.range(1, if many { 7 } else { 3 }) } else { 0 }));
    }
    // a table of operators
    let pratt = g.chance(1, 3) && rules > 2;
    for i in 0..rules {
        let (name, params) = n.rules[i].clone();
        let ps: Vec<String> = (0..params).map(|k| if g.chance(1, 3) { format!("p{}", k) } else { format!("q{}{}", i, k) }).collect();
        let list = if params > 0 { format!("({})", ps.join(", ")) } else { String::new() };
        if pratt && i == 0 {
            let mut alts: Vec<String> = vec![];
            for k in 1..rules {
                if g.chance(3, 4) { alts.push(format!("r{}", k)) }
            }
            if g.chance(1, 20) { alts.push("<eof>".to_string()) }
            o.push_str(&format!("#[pratt]\n{}rule {}{} {{ {} }}\n", if g.chance(1, 6) { "pub " } else { "" }, name, list, alts.join(" | ")));
            continue;
        }
        let mut at: Vec<String> = vec![];
        let mut kind = "";
        if pratt && !g.chance(1, 30) {
            kind = *g.pick(&["atom", "postfix", "prefix", "bin"]);
            at.push(match g.below(6) { 0 if kind != "bin" => kind.to_string(), _ if kind == "atom" => kind.to_string(), _ => format!("{}({})", kind, g.below(30)) });
        }
        let public = pratt || g.chance(1, 2);
        for (a, num) in &[("cached", 5), ("replaceable", 6), ("replaces", if public { 8 } else { 60 })] {
            if g.chance(1, *num) { at.push(a.to_string()) }
        }
        if public && g.chance(1, 8) { at.push(format!("type(r{})", g.below(rules))) }
        if !at.is_empty() { o.push_str(&format!("#[{}]\n", at.join(", "))) }
        o.push_str(&format!("{}rule {}{} {{", if public { "pub " } else { "" }, name, list));
        let d = g.below(4);
        if kind == "" || kind == "atom" {
            let alts = g.range(1, 3);
            for a in 0..alts {
                if a > 0 { o.push_str(" |"); }
                for _ in 0..g.below(4) {
                    o.push(' ');
                    expr(g, &n, &ps, d, many, &mut o);
                }
            }
        } else {
            let parts = if g.chance(1, 40) { g.below(5) } else if kind == "bin" { 3 } else { 2 };
            for _ in 0..parts {
                o.push(' ');
                let e = g.below(3);
                expr(g, &n, &ps, e, many, &mut o);
            }
        }
        o.push_str(" }\n");
    }
    o
}

fn c21() -> Vec<Phase> {
    let shipped: Vec<&'static str> = vec!["lang/json/src/json.fall", "lang/bnf/src/bnf.fall", "lang/rust/syntax/src/rust.fall", "lang/fall/syntax/src/fall.fall",
        "fall/test/src/sexp.fall", "fall/test/src/arith.fall", "fall/test/src/weird.fall"];
    fn ph(name: &'static str, count: u64, make: fn(&mut Rng) -> String) -> Phase {
        phase(name, count, move |_, g| {
            let s = make(g);
            Some(case(s.clone(), move || check(&s)))
        })
    }
    vec![
        phase("shipped", shipped.len() as u64, move |i, _| {
            let p = format!("/repo/{}", shipped[i as usize]);
            let s = std::fs::read_to_string(&p).ok()?;
            Some(case(p, move || check(&s)))
        }),
        ph("small", 500, |g| good(g, true)),
        ph("any", 300, |g| grammar::grammar(g, false)),
        ph("grammars", INF, |g| good(g, false)),
    ]
}

fn main() {
    common::main_with(|p| if p == "C21" { Some(c21()) } else { None })
}
