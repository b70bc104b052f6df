//! The mechanical desugarings applied to extracted functions. Each is listed in DESIGN.md.
use proc_macro2::{Ident, Span};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
pub struct Config {
    /// functions/methods that yield an iterator object driven with `next()`
    pub iter_fns: HashSet<String>,
    /// string literals are wrapped in `strlit(..)`
    pub strlit: bool,
    /// path segments (modules) dropped from the front of paths
    pub drop_mods: HashSet<String>,
}

pub struct Ds<'c> {
    cfg: &'c Config,
    ctr: usize,
    loops: usize,
    pub hoisted: Vec<ItemFn>,
    pub errors: Vec<String>,
    outer: String,
    renames: BTreeMap<String, (String, Vec<Ident>)>,
    /// locals bound to iterator objects made from slices
    iter_locals: HashSet<String>,
    /// local closures replaced by their body at every call
    closures: BTreeMap<String, ExprClosure>,
    /// the chain being desugared ends early
    breaking: bool,
    /// what leaves the loop of the chain being desugared (labelled if the chain has an inner loop)
    brk: Option<Lifetime>,
    /// the chain is followed by `collect::<Result<..>>()?`: closures may leave with `?`
    trying: bool,
}

fn id(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}

fn strip_parens(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_parens(&p.expr),
        Expr::Group(p) => strip_parens(&p.expr),
        _ => e,
    }
}

/// item of an iteration: the expression and whether it is `&place`
#[derive(Clone)]
enum Val {
    /// `&place`
    Ref(Expr),
    /// value or place
    Own(Expr),
}

impl Val {
    fn expr(&self) -> Expr {
        match self {
            Val::Ref(e) => parse_quote!(&#e),
            Val::Own(e) => e.clone(),
        }
    }
}

/// whether control can leave the expression by `return` or `?`
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// whether control can leave the expression by `return`
fn returns(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

enum Source {
    Slice { place: Expr, rev: bool },
    Iter(Expr),
    Range(Expr, Expr, bool),
}

struct Chain {
    source: Source,
    /// (method, args)
    steps: Vec<(String, Vec<Expr>)>,
}

const CONSUMERS: &[&str] = &["next", "count", "collect", "any", "all", "find", "position", "nth", "find_map", "for_each", "last"];
const ADAPTERS: &[&str] = &["filter", "map", "filter_map", "take_while", "skip_while", "take", "skip", "inspect", "enumerate", "rev", "cloned", "copied", "into_iter", "flat_map", "chain", "by_ref"];

impl<'c> Ds<'c> {
    pub fn new(cfg: &'c Config, outer: &str) -> Ds<'c> {
        Ds { cfg, ctr: 0, loops: 0, hoisted: vec![], errors: vec![], outer: outer.to_string(), renames: BTreeMap::new(), iter_locals: HashSet::new(), closures: BTreeMap::new(), breaking: false, brk: None, trying: false }
    }

    fn fresh(&mut self, p: &str) -> Ident {
        let i = format_ident!("{}__{}", p, self.ctr);
        self.ctr += 1;
        i
    }

    fn err<S: Into<String>>(&mut self, s: S) {
        self.errors.push(s.into())
    }

    /// bindings of an irrefutable pattern
    fn bind(&mut self, pat: &Pat, val: Val, out: &mut Vec<Stmt>) {
        match pat {
            Pat::Paren(p) => self.bind(&p.pat, val, out),
            Pat::Type(p) => self.bind(&p.pat, val, out),
            Pat::Wild(_) => {}
            Pat::Reference(r) => match val {
                Val::Ref(e) => self.bind(&r.pat, Val::Own(e), out),
                Val::Own(e) => self.bind(&r.pat, Val::Own(parse_quote!((*#e))), out),
            },
            Pat::Ident(i) if i.subpat.is_none() => {
                let name = &i.ident;
                let mu = &i.mutability;
                let e = val.expr();
                if i.by_ref.is_some() {
                    let inner = match val { Val::Ref(_) => { self.err("ref binding of a reference"); e.clone() } Val::Own(ref e) => e.clone() };
                    out.push(parse_quote!(let #name = & #mu #inner;));
                } else {
                    out.push(parse_quote!(let #mu #name = #e;));
                }
            }
            Pat::Tuple(t) => {
                for (i, p) in t.elems.iter().enumerate() {
                    let ix = Index::from(i);
                    let v = match &val {
                        Val::Ref(e) => Val::Ref(parse_quote!(#e.#ix)),
                        Val::Own(e) => Val::Own(parse_quote!(#e.#ix)),
                    };
                    self.bind(p, v, out);
                }
            }
            _ => {
                let e = val.expr();
                out.push(parse_quote!(let #pat = #e;));
            }
        }
    }

    /// Replaces `&subpattern` inside a refutable pattern by a fresh binding, and returns the bindings.
    fn lift(&mut self, pat: &mut Pat, out: &mut Vec<Stmt>) {
        match pat {
            Pat::Reference(r) => {
                let n = self.fresh("r");
                let sub = (*r.pat).clone();
                self.bind(&sub, Val::Own(parse_quote!((*#n))), out);
                *pat = parse_quote!(#n);
            }
            Pat::Paren(p) => self.lift(&mut p.pat, out),
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|p| self.lift(p, out)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|p| self.lift(p, out)),
            Pat::Struct(s) => s.fields.iter_mut().for_each(|f| self.lift(&mut f.pat, out)),
            Pat::Or(o) => {
                let before = out.len();
                o.cases.iter_mut().for_each(|p| self.lift(p, out));
                if out.len() != before {
                    self.err("reference pattern inside an or-pattern");
                }
            }
            _ => {}
        }
    }

    /// `name` or `Type::name` listed by `//@iterfn`
    fn is_iter_fn(&self, f: &Expr) -> bool {
        match f {
            Expr::Path(p) => {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = s.len();
                self.cfg.iter_fns.contains(&s[n - 1]) || (n > 1 && self.cfg.iter_fns.contains(&format!("{}::{}", s[n - 2], s[n - 1])))
            }
            _ => false,
        }
    }

    /// `m.retain(|k, _| c)` on a map: the keys are visited in some order, those without `c` removed
    fn retain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let c = match m.args.first().map(strip_parens) {
            Some(Expr::Closure(c)) if m.args.len() == 1 && c.inputs.len() == 2 => c.clone(),
            _ => return None,
        };
        if !matches!(c.inputs[1], Pat::Wild(_)) {
            return None;
        }
        let mut pre: Vec<Stmt> = Vec::new();
        let place: Expr = if is_place(&m.receiver) { (*m.receiver).clone() } else {
            let x = self.fresh("m");
            let r = &m.receiver;
            pre.push(parse_quote!(let mut #x = #r;));
            parse_quote!(#x)
        };
        let k = self.loops;
        self.loops += 1;
        let (it, x) = (format_ident!("it__{}", k), format_ident!("x__{}", k));
        let mut b: Vec<Stmt> = Vec::new();
        self.bind(&c.inputs[0], Val::Ref(parse_quote!(#x)), &mut b);
        if leaves(&c.body) {
            self.err("closure with an early return");
        }
        let body = &c.body;
        Some(parse_quote!({
            #(#pre)*
            let mut #it = #place.keys_list();
            loop { if let Some(#x) = #it.next() { #(#b)* if !(#body) { #place.remove(&#x); } } else { break; } }
        }))
    }

    fn source_of(&mut self, e: &Expr) -> Option<Source> {
        match strip_parens(e) {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                Some(Source::Slice { place: (*m.receiver).clone(), rev: false })
            }
            Expr::MethodCall(m) if self.cfg.iter_fns.contains(&m.method.to_string()) => {
                Some(Source::Iter(e.clone()))
            }
            Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => match id(strip_parens(&m.receiver)) {
                Some(n) if self.iter_locals.contains(&n) => Some(Source::Iter(e.clone())),
                _ => None,
            },
            Expr::Call(c) => {
                if self.is_iter_fn(&c.func) {
                    Some(Source::Iter(e.clone()))
                } else {
                    None
                }
            }
            Expr::Range(r) => {
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                match (&r.start, &r.end) {
                    (Some(a), Some(b)) => Some(Source::Range((**a).clone(), (**b).clone(), incl)),
                    _ => None,
                }
            }
            Expr::Path(_) => match id(strip_parens(e)) {
                Some(n) if self.iter_locals.contains(&n) => Some(Source::Iter(e.clone())),
                _ => None,
            },
            _ => None,
        }
    }

    /// Reads `e` as source.adapter*.last where `last` is an adapter or a consumer.
    fn chain_of(&mut self, e: &Expr) -> Option<Chain> {
        let mut steps: Vec<(String, Vec<Expr>)> = Vec::new();
        let mut cur = strip_parens(e).clone();
        loop {
            if let Some(src) = self.source_of(&cur) {
                if steps.is_empty() {
                    return None;
                }
                steps.reverse();
                let mut source = src;
                let mut it = steps.into_iter().peekable();
                let mut rest = Vec::new();
                while let Some(s) = it.peek() {
                    match s.0.as_str() {
                        "into_iter" | "by_ref" => {
                            it.next();
                        }
                        "rev" => match source {
                            Source::Slice { place, rev } => {
                                source = Source::Slice { place, rev: !rev };
                                it.next();
                            }
                            _ => {
                                self.err("rev of a non-slice iterator");
                                return None;
                            }
                        },
                        _ => break,
                    }
                }
                rest.extend(it);
                for (i, s) in rest.iter().enumerate() {
                    let last = i + 1 == rest.len();
                    if ADAPTERS.contains(&s.0.as_str()) {
                        continue;
                    }
                    if last && CONSUMERS.contains(&s.0.as_str()) {
                        continue;
                    }
                    return None;
                }
                return Some(Chain { source, steps: rest });
            }
            match cur {
                Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    if !ADAPTERS.contains(&name.as_str()) && !CONSUMERS.contains(&name.as_str()) {
                        return None;
                    }
                    steps.push((name, m.args.iter().cloned().collect()));
                    cur = strip_parens(&m.receiver).clone();
                }
                _ => return None,
            }
        }
    }

    /// f(item) with the closure's body put in place
    fn inline(&mut self, f: &Expr, args: Vec<Val>, pre: &mut Vec<Stmt>) -> Expr {
        match strip_parens(f) {
            Expr::Closure(c) => {
                for (p, a) in c.inputs.iter().zip(args) {
                    self.bind(p, a, pre);
                }
                if leaves(&c.body) && !(self.trying && !returns(&c.body)) {
                    self.err("closure with an early return");
                }
                (*c.body).clone()
            }
            Expr::Path(p) => {
                let a: Vec<Expr> = args.iter().map(|a| a.expr()).collect();
                parse_quote!(#p(#(#a),*))
            }
            other => {
                let a: Vec<Expr> = args.iter().map(|a| a.expr()).collect();
                let o = other.clone();
                parse_quote!((#o)(#(#a),*))
            }
        }
    }

    /// statements of the loop body: adapters from `k` on applied to `item`, then `sink`
    fn pipeline(&mut self, steps: &[(String, Vec<Expr>)], k: usize, item: Val, flags: &mut Vec<Stmt>, sink: &mut dyn FnMut(&mut Ds, Val, &mut Vec<Stmt>), out: &mut Vec<Stmt>) {
        if k == steps.len() {
            sink(self, item, out);
            return;
        }
        let (name, args) = (&steps[k].0, &steps[k].1);
        // items are used several times: name them unless they are places behind references
        let item = match item {
            Val::Ref(e) => Val::Ref(e),
            Val::Own(e) => {
                if id(&e).is_some() { Val::Own(e) } else {
                    let x = self.fresh("x");
                    out.push(parse_quote!(let #x = #e;));
                    Val::Own(parse_quote!(#x))
                }
            }
        };
        let byref = |v: &Val| -> Val { Val::Ref(match v { Val::Ref(e) => parse_quote!((&#e)), Val::Own(e) => e.clone() }) };
        match name.as_str() {
            "cloned" | "copied" => {
                let v = match item { Val::Ref(e) => Val::Own(e), Val::Own(e) => Val::Own(parse_quote!((*#e))) };
                self.pipeline(steps, k + 1, v, flags, sink, out)
            }
            "into_iter" | "by_ref" => self.pipeline(steps, k + 1, item, flags, sink, out),
            "filter" => {
                let c = self.inline(&args[0], vec![byref(&item)], out);
                let mut body = Vec::new();
                self.pipeline(steps, k + 1, item, flags, sink, &mut body);
                out.push(parse_quote!(if #c { #(#body)* }));
            }
            "take_while" => {
                let c = self.inline(&args[0], vec![byref(&item)], out);
                let br = self.brk.clone();
                out.push(parse_quote!(if !(#c) { break #br; }));
                self.pipeline(steps, k + 1, item, flags, sink, out)
            }
            "skip_while" => {
                let fl = self.fresh("skipping");
                flags.push(parse_quote!(let mut #fl = true;));
                let mut cb = Vec::new();
                let c = self.inline(&args[0], vec![byref(&item)], &mut cb);
                out.push(parse_quote!(if #fl { #(#cb)* if !(#c) { #fl = false; } }));
                let mut body = Vec::new();
                self.pipeline(steps, k + 1, item, flags, sink, &mut body);
                out.push(parse_quote!(if !#fl { #(#body)* }));
            }
            "map" => {
                let e = self.inline(&args[0], vec![item], out);
                self.pipeline(steps, k + 1, Val::Own(e), flags, sink, out)
            }
            "filter_map" => {
                let e = self.inline(&args[0], vec![item], out);
                let y = self.fresh("y");
                let mut body = Vec::new();
                self.pipeline(steps, k + 1, Val::Own(parse_quote!(#y)), flags, sink, &mut body);
                out.push(parse_quote!(if let Some(#y) = #e { #(#body)* }));
            }
            "take" => {
                let n = self.fresh("n");
                let a = &args[0];
                flags.push(parse_quote!(let mut #n: usize = 0;));
                let br = self.brk.clone();
                out.push(parse_quote!(if #n >= #a { break #br; }));
                out.push(parse_quote!(#n = #n + 1;));
                self.pipeline(steps, k + 1, item, flags, sink, out)
            }
            "skip" => {
                let n = self.fresh("n");
                let a = &args[0];
                flags.push(parse_quote!(let mut #n: usize = 0;));
                let mut body = Vec::new();
                self.pipeline(steps, k + 1, item, flags, sink, &mut body);
                out.push(parse_quote!(if #n >= #a { #(#body)* } else { #n = #n + 1; }));
            }
            "inspect" => {
                let byref = byref(&item);
                let e = self.inline(&args[0], vec![byref], out);
                out.push(parse_quote!(#e;));
                self.pipeline(steps, k + 1, item, flags, sink, out)
            }
            "enumerate" => {
                let n = self.fresh("n");
                flags.push(parse_quote!(let mut #n: usize = 0;));
                let e = item.expr();
                let t = self.fresh("t");
                out.push(parse_quote!(let #t = (#n, #e);));
                out.push(parse_quote!(#n = #n + 1;));
                self.pipeline(steps, k + 1, Val::Own(parse_quote!(#t)), flags, sink, out)
            }
            "flat_map" => {
                let e = self.inline(&args[0], vec![item], out);
                let it = self.fresh("it");
                let y = self.fresh("y");
                let mut body = Vec::new();
                if (self.breaking && self.brk.is_none()) || steps[k + 1..].iter().any(|s| s.0 == "take_while" || s.0 == "take") {
                    self.err("flat_map followed by an early end");
                }
                self.pipeline(steps, k + 1, Val::Own(parse_quote!(#y)), flags, sink, &mut body);
                out.push(parse_quote!(let mut #it = #e;));
                out.push(Stmt::Expr(parse_quote!(loop { if let Some(#y) = #it.next() { #(#body)* } else { break; } }), None));
            }
            other => self.err(format!("iterator adapter {}", other)),
        }
    }

    fn drive(&mut self, source: &Source, pre: &mut Vec<Stmt>, label: Option<Label>, body: &mut dyn FnMut(&mut Ds, Val, &mut Vec<Stmt>)) -> Expr {
        let k = self.loops;
        self.loops += 1;
        let mut b: Vec<Stmt> = Vec::new();
        match source {
            Source::Slice { place, rev } => {
                let i = format_ident!("i__{}", k);
                let simple = is_place(place);
                let place: Expr = if simple { strip_ref(place) } else {
                    let s = format_ident!("s__{}", k);
                    pre.push(parse_quote!(let #s = &#place;));
                    parse_quote!(#s)
                };
                if *rev {
                    pre.push(parse_quote!(let mut #i: usize = #place.len();));
                    b.push(parse_quote!(#i = #i - 1;));
                    body(self, Val::Ref(parse_quote!(#place[#i])), &mut b);
                    parse_quote!(#label while #i > 0 { #(#b)* })
                } else {
                    pre.push(parse_quote!(let mut #i: usize = 0;));
                    let j = format_ident!("j__{}", k);
                    b.push(parse_quote!(let #j = #i;));
                    b.push(parse_quote!(#i = #i + 1;));
                    body(self, Val::Ref(parse_quote!(#place[#j])), &mut b);
                    parse_quote!(#label while #i < #place.len() { #(#b)* })
                }
            }
            Source::Range(a, c, incl) => {
                let i = format_ident!("i__{}", k);
                let e = format_ident!("e__{}", k);
                let j = format_ident!("j__{}", k);
                pre.push(parse_quote!(let mut #i = #a;));
                pre.push(parse_quote!(let #e = #c;));
                b.push(parse_quote!(let #j = #i;));
                b.push(parse_quote!(#i = #i + 1;));
                body(self, Val::Own(parse_quote!(#j)), &mut b);
                if *incl { parse_quote!(#label while #i <= #e { #(#b)* }) } else { parse_quote!(#label while #i < #e { #(#b)* }) }
            }
            Source::Iter(e) => {
                let x = format_ident!("x__{}", k);
                let mut b2: Vec<Stmt> = Vec::new();
                body(self, Val::Own(parse_quote!(#x)), &mut b2);
                // `&mut it` and locals that are iterators are driven in place
                let inner = strip_mutref(e);
                if let Some(n) = id(&inner) {
                    if self.iter_locals.contains(&n) {
                        return parse_quote!(#label loop { if let Some(#x) = #inner.next() { #(#b2)* } else { break; } });
                    }
                }
                let it = format_ident!("it__{}", k);
                pre.push(parse_quote!(let mut #it = #e;));
                parse_quote!(#label loop { if let Some(#x) = #it.next() { #(#b2)* } else { break; } })
            }
        }
    }

    fn gen_chain(&mut self, ch: Chain) -> Option<Expr> {
        let Chain { source, mut steps } = ch;
        // chain(once(e)) / chain(iter) right before a collecting end
        let consumer = if CONSUMERS.contains(&steps.last()?.0.as_str()) { steps.pop() } else { None };
        let (cname, cargs) = match &consumer {
            Some((n, a)) => (n.clone(), a.clone()),
            None => ("vec_iter".to_string(), vec![]),
        };
        let mut extra: Option<Expr> = None;
        if let Some(p) = steps.iter().position(|s| s.0 == "chain") {
            if p + 1 != steps.len() || !(cname == "vec_iter" || cname == "collect") {
                self.err("chain followed by adapters");
                return None;
            }
            extra = Some(steps[p].1[0].clone());
            steps.pop();
        }
        let r = self.fresh("r");
        let mut pre: Vec<Stmt> = Vec::new();
        let mut flags: Vec<Stmt> = Vec::new();
        let init: Expr = match cname.as_str() {
            "next" | "find" | "position" | "nth" | "find_map" | "last" => parse_quote!(None),
            "count" => parse_quote!(0usize),
            "collect" | "vec_iter" => parse_quote!(Vec::new()),
            "any" => parse_quote!(false),
            "all" => parse_quote!(true),
            "for_each" => parse_quote!(()),
            _ => return None,
        };
        let steps2 = steps.clone();
        let cname2 = cname.clone();
        let r2 = r.clone();
        let nctr = if cname == "position" || cname == "nth" { Some(self.fresh("n")) } else { None };
        let nctr2 = nctr.clone();
        let outer_breaking = std::mem::replace(&mut self.breaking, matches!(cname.as_str(), "next" | "any" | "all" | "find" | "find_map" | "position" | "nth"));
        let mut fl2: Vec<Stmt> = Vec::new();
        let lt = if self.breaking && steps.iter().any(|s| s.0 == "flat_map") { Some(Lifetime::new(&format!("'chain__{}", self.loops), Span::call_site())) } else { None };
        let outer_brk = std::mem::replace(&mut self.brk, lt.clone());
        let label = lt.clone().map(|name| Label { name, colon_token: Default::default() });
        let trying = self.trying;
        let lp = self.drive(&source, &mut pre, label, &mut |ds, item, out| {
            let mut sink = |ds: &mut Ds, item: Val, out: &mut Vec<Stmt>| {
                let e = item.expr();
                let br = ds.brk.clone();
                match cname2.as_str() {
                    "next" => {
                        out.push(parse_quote!(#r2 = Some(#e);));
                        out.push(parse_quote!(break #br;));
                    }
                    "last" => out.push(parse_quote!(#r2 = Some(#e);)),
                    "count" => out.push(parse_quote!(#r2 = #r2 + 1;)),
                    "collect" if trying => {
                        let e = match strip_parens(&e) {
                            Expr::Call(c) if id(&c.func).as_deref() == Some("Ok") && c.args.len() == 1 => c.args[0].clone(),
                            e => parse_quote!(#e?),
                        };
                        out.push(parse_quote!(#r2.push(#e);));
                    }
                    "collect" | "vec_iter" => out.push(parse_quote!(#r2.push(#e);)),
                    "any" => {
                        let c = ds.inline(&cargs[0], vec![item], out);
                        out.push(parse_quote!(if #c { #r2 = true; break #br; }));
                    }
                    "all" => {
                        let c = ds.inline(&cargs[0], vec![item], out);
                        out.push(parse_quote!(if !(#c) { #r2 = false; break #br; }));
                    }
                    "find" => {
                        let byref = Val::Ref(match &item { Val::Ref(e) => parse_quote!((&#e)), Val::Own(e) => e.clone() });
                        let c = ds.inline(&cargs[0], vec![byref], out);
                        out.push(parse_quote!(if #c { #r2 = Some(#e); break #br; }));
                    }
                    "find_map" => {
                        let c = ds.inline(&cargs[0], vec![item], out);
                        let y = ds.fresh("y");
                        out.push(parse_quote!(if let Some(#y) = #c { #r2 = Some(#y); break #br; }));
                    }
                    "position" => {
                        let n = nctr2.clone().unwrap();
                        let c = ds.inline(&cargs[0], vec![item], out);
                        out.push(parse_quote!(if #c { #r2 = Some(#n); break #br; }));
                        out.push(parse_quote!(#n = #n + 1;));
                    }
                    "nth" => {
                        let n = nctr2.clone().unwrap();
                        let a = cargs[0].clone();
                        out.push(parse_quote!(if #n == #a { #r2 = Some(#e); break #br; }));
                        out.push(parse_quote!(#n = #n + 1;));
                    }
                    "for_each" => {
                        let c = ds.inline(&cargs[0], vec![item], out);
                        out.push(parse_quote!(#c;));
                    }
                    _ => {}
                }
            };
            ds.pipeline(&steps2, 0, item, &mut fl2, &mut sink, out);
        });
        self.breaking = outer_breaking;
        self.brk = outer_brk;
        flags.append(&mut fl2);
        if let Some(n) = nctr {
            flags.push(parse_quote!(let mut #n: usize = 0;));
        }
        let mut post: Vec<Stmt> = Vec::new();
        if let Some(x) = extra {
            let mut done = false;
            if let Expr::Call(c) = strip_parens(&x) {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().unwrap().ident == "once" && c.args.len() == 1 {
                        let a = &c.args[0];
                        post.push(parse_quote!(#r.push(#a);));
                        done = true;
                    }
                }
            }
            if !done {
                self.err("chain of a non-once iterator");
            }
        }
        let tail: Expr = if cname == "vec_iter" { parse_quote!(vec_iter(#r)) } else { parse_quote!(#r) };
        let lp_stmt = Stmt::Expr(lp, None);
        if cname == "for_each" {
            return Some(parse_quote!({ #(#pre)* #(#flags)* #lp_stmt }));
        }
        Some(parse_quote!({ let mut #r = #init; #(#pre)* #(#flags)* #lp_stmt #(#post)* #tail }))
    }

    fn for_loop(&mut self, f: ExprForLoop) -> Expr {
        let e = strip_parens(&f.expr).clone();
        // source with adapters, or a bare slice
        let (source, steps) = if let Some(ch) = self.chain_of(&e) {
            (ch.source, ch.steps)
        } else if let Some(s) = self.source_of(&e) {
            (s, vec![])
        } else {
            match &e {
                Expr::Reference(r) if r.mutability.is_some() => (Source::Iter(e.clone()), vec![]),
                Expr::Reference(r) => (Source::Slice { place: (*r.expr).clone(), rev: false }, vec![]),
                Expr::Path(_) | Expr::Field(_) => (Source::Slice { place: e.clone(), rev: false }, vec![]),
                _ => (Source::Iter(e.clone()), vec![]),
            }
        };
        let mut pre = Vec::new();
        let mut flags: Vec<Stmt> = Vec::new();
        let pat = (*f.pat).clone();
        let body = f.body.clone();
        // enumerate as the only step over a slice: use the loop's own counter
        let only_enum = steps.len() == 1 && steps[0].0 == "enumerate" && matches!(source, Source::Slice { rev: false, .. });
        let lp = self.drive(&source, &mut pre, f.label.clone(), &mut |ds, item, out| {
            if only_enum {
                if let (Pat::Tuple(t), Val::Ref(e)) = (&pat, &item) {
                    if t.elems.len() == 2 {
                        let j = match e { Expr::Index(ix) => (*ix.index).clone(), _ => unreachable!() };
                        ds.bind(&t.elems[0], Val::Own(j), out);
                        ds.bind(&t.elems[1], item.clone(), out);
                        out.extend(body.stmts.iter().cloned());
                        return;
                    }
                }
            }
            let mut sink = |ds: &mut Ds, item: Val, out: &mut Vec<Stmt>| {
                ds.bind(&pat, item, out);
                out.extend(body.stmts.iter().cloned());
            };
            ds.pipeline(&steps, 0, item, &mut flags, &mut sink, out);
        });
        let lp_stmt = Stmt::Expr(lp, None);
        parse_quote!({ #(#pre)* #(#flags)* #lp_stmt })
    }

    fn option_comb(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let v = || -> Ident { format_ident!("v") };
        let _ = v;
        match name.as_str() {
            "map" | "and_then" | "filter" if m.args.len() == 1 => {
                let x = self.fresh("v");
                let mut pre = Vec::new();
                let a = if name == "filter" { Val::Ref(parse_quote!(#x)) } else { Val::Own(parse_quote!(#x)) };
                let b = self.inline(&m.args[0], vec![a], &mut pre);
                Some(match name.as_str() {
                    "map" => parse_quote!(match #r { Some(#x) => Some({ #(#pre)* #b }), None => None }),
                    "and_then" => parse_quote!(match #r { Some(#x) => { #(#pre)* #b } None => None }),
                    _ => parse_quote!(match #r { Some(#x) => { #(#pre)* if #b { Some(#x) } else { None } } None => None }),
                })
            }
            "map_or" if m.args.len() == 2 => {
                let x = self.fresh("v");
                let mut pre = Vec::new();
                let b = self.inline(&m.args[1], vec![Val::Own(parse_quote!(#x))], &mut pre);
                let d = &m.args[0];
                Some(parse_quote!(match #r { Some(#x) => { #(#pre)* #b } None => #d }))
            }
            "or_else" if m.args.len() == 1 => {
                let x = self.fresh("v");
                let b = self.inline(&m.args[0], vec![], &mut vec![]);
                Some(parse_quote!(match #r { Some(#x) => Some(#x), None => { #b } }))
            }
            // the error is made eagerly, which has no effect
            "ok_or" if m.args.len() == 1 && matches!(&m.args[0], Expr::Call(c) if id(&c.func).as_deref() == Some("verror")) => {
                let x = self.fresh("v");
                let d = &m.args[0];
                Some(parse_quote!(match #r { Some(#x) => Ok(#x), None => Err(#d) }))
            }
            "or" if m.args.len() == 1 && matches!(m.args[0], Expr::Path(_)) => {
                let x = self.fresh("v");
                let d = &m.args[0];
                Some(parse_quote!(match #r { Some(#x) => Some(#x), None => #d }))
            }
            "unwrap_or_else" if m.args.len() == 1 => {
                let x = self.fresh("v");
                let b = self.inline(&m.args[0], vec![], &mut vec![]);
                Some(parse_quote!(match #r { Some(#x) => #x, None => { #b } }))
            }
            _ => None,
        }
    }

    pub fn fn_body(&mut self, sig: &mut Signature, block: &mut Block) {
        // parameters with patterns
        let mut pre: Vec<Stmt> = Vec::new();
        for a in sig.inputs.iter_mut() {
            if let FnArg::Receiver(r) = a {
                if r.reference.is_none() && r.mutability.is_some() {
                    // `mut self` -> `self` and `let mut self_ = self;`
                    r.mutability = None;
                    SelfRename.visit_block_mut(block);
                    pre.push(parse_quote!(let mut self_ = self;));
                }
            }
            if let FnArg::Typed(t) = a {
                match &*t.pat {
                    Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                        if i.mutability.is_some() {
                            // `mut x: T` -> `x: T` and `let mut x = x;`
                            let n = i.ident.clone();
                            pre.push(parse_quote!(let mut #n = #n;));
                            *t.pat = parse_quote!(#n);
                        }
                    }
                    Pat::Wild(_) => {
                        let n = self.fresh("p");
                        *t.pat = parse_quote!(#n);
                    }
                    p => {
                        let n = self.fresh("p");
                        let p = p.clone();
                        self.bind(&p, Val::Own(parse_quote!(#n)), &mut pre);
                        *t.pat = parse_quote!(#n);
                    }
                }
            }
        }
        if crate::beta::Beta::applies(block) {
            let es = crate::beta::Beta::run(block);
            self.errors.extend(es);
        }
        // nested functions and local closures become functions of their own
        let mut kept: Vec<Stmt> = Vec::new();
        let params: BTreeMap<String, Type> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => Some((i.ident.to_string(), (*t.ty).clone())),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        let as_value = {
            let mut v = AsValue(HashSet::new());
            visit::Visit::visit_block(&mut v, block);
            v.0
        };
        for s in block.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Fn(mut f)) => {
                    let n = f.sig.ident.to_string();
                    let full = format!("{}__{}", self.outer, n);
                    f.sig.ident = Ident::new(&full, Span::call_site());
                    self.renames.insert(n, (full, vec![]));
                    self.hoisted.push(f);
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Local(l) if closure_init(&l).is_some() => {
                    let c = closure_init(&l).unwrap().clone();
                    let n = match &l.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => {
                            self.err("closure bound to a pattern");
                            kept.push(Stmt::Local(l));
                            continue;
                        }
                    };
                    let full = format!("{}__{}", self.outer, n);
                    let mut used = Idents(HashSet::new());
                    let mut cb = (*c.body).clone();
                    used.visit_expr_mut(&mut cb);
                    // a closure over locals, or one without a written result type, is put in place of its calls
                    let over_locals = kept.iter().any(|k| match k {
                        Stmt::Local(l) => match &l.pat { Pat::Ident(i) => used.0.contains(&i.ident.to_string()), _ => false },
                        _ => false,
                    });
                    if over_locals || (matches!(c.output, ReturnType::Default) && !matches!(&*c.body, Expr::Block(_))) {
                        if as_value.contains(&n) {
                            // handed on as a value
                            kept.push(Stmt::Local(l));
                            continue;
                        }
                        self.closures.insert(n, c);
                        continue;
                    }
                    let mut capt: Vec<Ident> = Vec::new();
                    for (p, _) in &params {
                        if used.0.contains(p) {
                            capt.push(Ident::new(p, Span::call_site()));
                        }
                    }
                    for (_, (_, cs)) in self.renames.iter().filter(|(k, _)| used.0.contains(*k)) {
                        for c in cs {
                            if !capt.contains(c) {
                                capt.push(c.clone());
                            }
                        }
                    }
                    capt.sort();
                    let mut ins: Vec<FnArg> = Vec::new();
                    for c in &capt {
                        let t = &params[&c.to_string()];
                        ins.push(parse_quote!(#c: #t));
                    }
                    for i in &c.inputs {
                        match i {
                            Pat::Type(t) => {
                                let p = &t.pat;
                                let ty = &t.ty;
                                ins.push(parse_quote!(#p: #ty));
                            }
                            p => {
                                self.err(format!("closure parameter without type: {}", p.to_token_stream()));
                            }
                        }
                    }
                    let fid = Ident::new(&full, Span::call_site());
                    let out = &c.output;
                    let body = &c.body;
                    let f: ItemFn = match &**body {
                        Expr::Block(b) => {
                            let b = &b.block;
                            parse_quote!(fn #fid(#(#ins),*) #out #b)
                        }
                        e => parse_quote!(fn #fid(#(#ins),*) #out { #e }),
                    };
                    self.renames.insert(n, (full, capt));
                    self.hoisted.push(f);
                }
                s => kept.push(s),
            }
        }
        block.stmts = pre.into_iter().chain(kept).collect();
        self.visit_block_mut(block);
        let hs: Vec<ItemFn> = self.hoisted.drain(..).collect();
        for mut f in hs {
            let mut rn = Rn(&self.renames);
            rn.visit_item_fn_mut(&mut f);
            self.hoisted.push(f);
        }
    }
}

/// renames calls of hoisted functions
struct Rn<'a>(&'a BTreeMap<String, (String, Vec<Ident>)>);
impl<'a> VisitMut for Rn<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        rename_call(e, self.0);
    }
}

fn rename_call(e: &mut Expr, renames: &BTreeMap<String, (String, Vec<Ident>)>) {
    if let Expr::Call(c) = e {
        if let Some(n) = id(&c.func) {
            if let Some((full, capt)) = renames.get(&n) {
                let f = Ident::new(full, Span::call_site());
                let args = c.args.iter();
                *e = parse_quote!(#f(#(#capt,)* #(#args),*));
                return;
            }
        }
    }
    // passed as a function value
    if let Some(n) = id(e) {
        if let Some((full, capt)) = renames.get(&n) {
            if capt.is_empty() {
                let f = Ident::new(full, Span::call_site());
                *e = parse_quote!(#f);
            }
        }
    }
}

/// names used other than by calling them
struct AsValue(HashSet<String>);
impl<'a> visit::Visit<'a> for AsValue {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if id(&c.func).is_none() {
            self.visit_expr(&c.func);
        }
        for a in &c.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.insert(i.to_string());
        }
    }
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("self_", Span::call_site());
        }
    }
}

struct Idents(HashSet<String>);
impl VisitMut for Idents {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        self.0.insert(i.to_string());
    }
}

fn closure_init(l: &Local) -> Option<&ExprClosure> {
    match &l.init {
        Some(i) => match strip_parens(&i.expr) {
            Expr::Closure(c) => Some(c),
            _ => None,
        },
        None => None,
    }
}

fn is_place(e: &Expr) -> bool {
    match strip_parens(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Reference(r) => is_place(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}
fn strip_ref(e: &Expr) -> Expr {
    match strip_parens(e) {
        Expr::Reference(r) => strip_ref(&r.expr),
        e => e.clone(),
    }
}
fn strip_mutref(e: &Expr) -> Expr {
    match strip_parens(e) {
        Expr::Reference(r) if r.mutability.is_some() => strip_mutref(&r.expr),
        e => e.clone(),
    }
}

impl<'c> VisitMut for Ds<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local iterator objects
        for s in b.stmts.iter() {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    let e = strip_parens(&init.expr).clone();
                    let is_it = match &e {
                        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => true,
                        Expr::MethodCall(m) if self.cfg.iter_fns.contains(&m.method.to_string()) => true,
                        Expr::Call(c) => self.is_iter_fn(&c.func),
                        Expr::MethodCall(_) => match self.chain_of(&e) {
                            Some(ch) => !CONSUMERS.contains(&ch.steps.last().unwrap().0.as_str()),
                            None => false,
                        },
                        _ => false,
                    };
                    if is_it {
                        self.iter_locals.insert(p.ident.to_string());
                    }
                }
            }
        }
        let stmts = std::mem::take(&mut b.stmts);
        // functions nested in an inner block
        for s in &stmts {
            if let Stmt::Item(Item::Fn(f)) = s {
                let mut f = f.clone();
                let n = f.sig.ident.to_string();
                let full = format!("{}__{}", self.outer, n);
                if self.renames.contains_key(&n) {
                    self.err("two nested functions of one name");
                }
                f.sig.ident = Ident::new(&full, Span::call_site());
                self.renames.insert(n, (full, vec![]));
                self.hoisted.push(f);
            }
        }
        for mut s in stmts {
            match &mut s {
                Stmt::Local(l) => {
                    l.attrs.clear();
                    if let Some(init) = &mut l.init {
                        self.visit_expr_mut(&mut init.expr);
                        if let Some((_, d)) = &mut init.diverge {
                            self.visit_expr_mut(d);
                        }
                    }
                    // irrefutable patterns with references
                    let mut needs = HasRef(false);
                    needs.visit_pat_mut(&mut l.pat.clone());
                    if needs.0 {
                        if let (Some(init), true) = (&l.init, l.init.as_ref().map_or(false, |i| i.diverge.is_none())) {
                            let t = self.fresh("t");
                            let e = &init.expr;
                            b.stmts.push(parse_quote!(let #t = #e;));
                            let mut out = vec![];
                            let p = l.pat.clone();
                            self.bind(&p, Val::Own(parse_quote!(#t)), &mut out);
                            b.stmts.extend(out);
                            continue;
                        }
                    }
                    self.visit_pat_mut(&mut l.pat);
                    b.stmts.push(s);
                }
                Stmt::Macro(m) => {
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    let semi = m.semi_token;
                    self.visit_expr_mut(&mut e);
                    b.stmts.push(Stmt::Expr(e, semi.or(Some(Default::default()))));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Fn(_)) => {}
                _ => {
                    visit_mut::visit_stmt_mut(self, &mut s);
                    b.stmts.push(s);
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Some(cl) = id(&c.func).and_then(|n| self.closures.get(&n).cloned()) {
                let mut pre = Vec::new();
                if leaves(&cl.body) {
                    self.err("closure with an early return");
                }
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if args.len() > 1 {
                    let ps: Vec<Pat> = cl.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                    pre.push(parse_quote!(let (#(#ps),*) = (#(#args),*);));
                } else if args.len() == 1 {
                    self.bind(&cl.inputs[0], Val::Own(args[0].clone()), &mut pre);
                }
                let b = &cl.body;
                *e = parse_quote!({ #(#pre)* #b });
            }
        }
        rename_call(e, &self.renames);
        // collect::<Result<..>>()?
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = strip_parens(&t.expr) {
                let is_result = m.turbofish.as_ref().map_or(false, |t| matches!(t.args.first(), Some(GenericArgument::Type(Type::Path(p))) if p.path.segments.last().unwrap().ident == "Result"));
                if m.method == "collect" && is_result {
                    if let Some(ch) = self.chain_of(&t.expr.clone()) {
                        let was = std::mem::replace(&mut self.trying, true);
                        let n = self.gen_chain(ch);
                        self.trying = was;
                        if let Some(mut n) = n {
                            self.visit_expr_mut(&mut n);
                            *e = n;
                            return;
                        }
                    }
                }
            }
        }
        // v.extend(chain)
        if let Expr::MethodCall(m) = e {
            if m.method == "extend" && m.args.len() == 1 && is_place(&m.receiver) {
                if let Some(ch) = self.chain_of(&m.args[0].clone()) {
                    if ADAPTERS.contains(&ch.steps.last().unwrap().0.as_str()) {
                        let (v, it) = (&m.receiver, &m.args[0]);
                        let x = self.fresh("e");
                        let mut n: Expr = parse_quote!(for #x in #it { #v.push(#x); });
                        self.visit_expr_mut(&mut n);
                        *e = n;
                        return;
                    }
                }
            }
        }
        // outermost first: iterator chains
        if let Expr::MethodCall(_) = e {
            if let Some(ch) = self.chain_of(e) {
                // an existing iterator object consumed by next() stays a call
                let plain_next = ch.steps.len() == 1 && ch.steps[0].0 == "next" && matches!(ch.source, Source::Iter(_));
                let plain_cloned = ch.steps.len() == 1 && (ch.steps[0].0 == "cloned" || ch.steps[0].0 == "copied") && matches!(ch.source, Source::Slice { rev: false, .. });
                if plain_cloned {
                    if let Source::Slice { place, .. } = ch.source {
                        let p = strip_ref(&place);
                        *e = parse_quote!(slice_iter_cloned(&#p));
                        return;
                    }
                }
                if !plain_next {
                    if let Some(mut n) = self.gen_chain(ch) {
                        self.visit_expr_mut(&mut n);
                        *e = n;
                        return;
                    }
                }
            }
        }
        match e {
            Expr::Call(c) if self.cfg.strlit && id(&c.func).as_deref() == Some("strlit") => return,
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) if self.cfg.strlit => {
                let l = e.clone();
                *e = parse_quote!(strlit(#l));
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                let mut n = self.for_loop(f);
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            // `a |= b` where b is a comparison: both are bool
            Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) => {
                let cmp = matches!(&*b.right, Expr::Binary(r) if matches!(r.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)));
                if cmp {
                    let (l, r) = (&b.left, &b.right);
                    let mut n: Expr = parse_quote!(#l = (#r) || #l);
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (pat, ex, body, label) = (&l.pat, &l.expr, &w.body.stmts, &w.label);
                    let mut n: Expr = parse_quote!(#label loop { if let #pat = #ex { #(#body)* } else { break; } });
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                match (name.as_str(), args) {
                    ("assert", Ok(a)) | ("debug_assert", Ok(a)) => {
                        let mut c = a[0].clone();
                        self.visit_expr_mut(&mut c);
                        *e = parse_quote!(vassert(#c));
                    }
                    ("assert_eq", Ok(a)) | ("debug_assert_eq", Ok(a)) => {
                        let (mut l, mut r) = (a[0].clone(), a[1].clone());
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(vassert(#l == #r));
                    }
                    ("panic", _) | ("unreachable", _) | ("unimplemented", _) | ("todo", _) => {
                        *e = parse_quote!(vpanic());
                    }
                    ("vec", Ok(a)) => {
                        let mut es: Vec<Expr> = a.into_iter().collect();
                        for x in &mut es {
                            self.visit_expr_mut(x);
                        }
                        *e = parse_quote!(vec![#(#es),*]);
                    }
                    ("format_err", _) => {
                        *e = parse_quote!(verror());
                    }
                    ("format", _) => {
                        *e = parse_quote!(vformat());
                    }
                    ("info", _) | ("error", _) | ("warn", _) | ("debug", _) | ("trace", _) => {
                        // logging
                        *e = parse_quote!({});
                    }
                    (n, _) => self.err(format!("macro {}!", n)),
                }
                return;
            }
            _ => {}
        }
        // patterns with references in match / if let
        match e {
            Expr::Match(m) => {
                for arm in &mut m.arms {
                    arm.attrs.clear();
                    let mut out = vec![];
                    self.lift(&mut arm.pat, &mut out);
                    if !out.is_empty() {
                        if arm.guard.is_some() {
                            self.err("reference pattern with a guard");
                        }
                        let b = &arm.body;
                        arm.body = parse_quote!({ #(#out)* #b });
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut out = vec![];
                    self.lift(&mut l.pat, &mut out);
                    out.extend(i.then_branch.stmts.drain(..));
                    i.then_branch.stmts = out;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                if m.method == "iter" && m.args.is_empty() {
                    let p = strip_ref(&m.receiver);
                    *e = parse_quote!(slice_iter(&#p));
                } else if let Some(n) = if m.method == "retain" { self.retain(&m.clone()) } else { None } {
                    *e = n;
                } else if let Some(n) = self.option_comb(&m.clone()) {
                    *e = n;
                }
            }
            Expr::Call(c) => {
                // (field)(args): call of a function object
                if let Expr::Paren(p) = &*c.func {
                    let f = &p.expr;
                    let args = c.args.iter();
                    *e = parse_quote!(#f.call(#(#args),*));
                }
            }
            _ => {}
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        strip_path(p, self.cfg);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

struct HasRef(bool);
impl VisitMut for HasRef {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(_) = p {
            self.0 = true;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

pub fn strip_path(p: &mut Path, cfg: &Config) {
    let mut segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
    let mut changed = false;
    while segs.len() > 1 {
        let s = segs[0].ident.to_string();
        if (s == "crate" || s == "super" || s == "self" || cfg.drop_mods.contains(&s)) && matches!(segs[0].arguments, PathArguments::None) {
            segs.remove(0);
            changed = true;
        } else {
            break;
        }
    }
    if changed {
        p.leading_colon = None;
        p.segments = segs.into_iter().collect();
    }
}

/// clean-up that also applies to signatures and items: paths, attributes, visibility
pub struct Clean<'c>(pub &'c Config);
impl<'c> VisitMut for Clean<'c> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        strip_path(p, self.0);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = Visibility::Public(Default::default());
    }
}
#[allow(dead_code)]
fn unused(_: &dyn ToTokens) { let _ = quote!(); }
