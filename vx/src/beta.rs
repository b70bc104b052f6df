//! Local closures that are handed to other local closures, or listed in a local table, are put in
//! place of their calls (beta reduction), and loops over such a table are unrolled.
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Reference(r) => strip(&r.expr),
        _ => e,
    }
}
fn name_of(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
fn is_fn_type(t: &Type) -> bool {
    let s = t.to_token_stream().to_string();
    s.contains("FnMut") || s.contains("FnOnce") || s.contains("Fn (")
}
fn bare(p: &Pat) -> &Pat {
    match p {
        Pat::Type(t) => bare(&t.pat),
        Pat::Paren(t) => bare(&t.pat),
        p => p,
    }
}
fn bound(p: &Pat) -> HashSet<String> {
    struct V(HashSet<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0.insert(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(HashSet::new());
    visit::Visit::visit_pat(&mut v, p);
    v.0
}

/// replaces variables by expressions
struct Subst<'a> {
    map: BTreeMap<String, Expr>,
    errors: &'a mut Vec<String>,
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(v) = p.path.get_ident().and_then(|i| self.map.get(&i.to_string())) {
                    *e = v.clone();
                    return;
                }
            }
        }
        if let Expr::Closure(c) = e {
            let own: HashSet<String> = c.inputs.iter().flat_map(|p| bound(p)).collect();
            let saved = self.map.clone();
            self.map.retain(|k, _| !own.contains(k));
            if self.map.values().any(|v| name_of(v).map_or(false, |n| own.contains(&n))) && !self.map.is_empty() {
                // a parameter hides what a variable is replaced by: keep the outer one out of reach
                let hidden: Vec<String> = self.map.iter().filter(|(_, v)| name_of(v).map_or(false, |n| own.contains(&n))).map(|(k, _)| k.clone()).collect();
                let mut used = Uses(HashSet::new());
                visit::Visit::visit_expr(&mut used, &c.body);
                if hidden.iter().any(|h| used.0.contains(h)) {
                    self.errors.push("closure parameter hides an argument".to_string());
                }
            }
            self.visit_expr_mut(&mut c.body);
            self.map = saved;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
        let n = i.ident.to_string();
        if self.map.contains_key(&n) || self.map.values().any(|v| name_of(v).as_ref() == Some(&n)) {
            self.errors.push(format!("variable {} is bound again inside a closure", n));
        }
    }
}
struct Uses(HashSet<String>);
impl<'a> visit::Visit<'a> for Uses {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.insert(i.to_string());
        }
    }
}
struct Leaves(bool);
impl<'a> visit::Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct Jumps(bool);
impl<'a> visit::Visit<'a> for Jumps {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
}

pub struct Beta {
    env: BTreeMap<String, ExprClosure>,
    tables: BTreeMap<String, Vec<Expr>>,
    ctr: usize,
    pub errors: Vec<String>,
}

fn closure(l: &Local) -> Option<(String, ExprClosure)> {
    match (bare(&l.pat), &l.init) {
        (Pat::Ident(i), Some(init)) => match strip(&init.expr) {
            Expr::Closure(c) => Some((i.ident.to_string(), c.clone())),
            _ => None,
        },
        _ => None,
    }
}
fn table(l: &Local) -> Option<(String, Vec<Expr>)> {
    match (bare(&l.pat), &l.init) {
        (Pat::Ident(i), Some(init)) => {
            let elems: Vec<Expr> = match strip(&init.expr) {
                Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                    m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect()
                }
                Expr::Array(a) => a.elems.iter().cloned().collect(),
                _ => return None,
            };
            Some((i.ident.to_string(), elems))
        }
        _ => None,
    }
}

impl Beta {
    /// whether the function has closures that are used as values by closures or in a table
    pub fn applies(b: &Block) -> bool {
        let names: HashSet<String> = b.stmts.iter().filter_map(|s| match s { Stmt::Local(l) => closure(l).map(|c| c.0), _ => None }).collect();
        b.stmts.iter().any(|s| match s {
            Stmt::Local(l) => {
                if let Some((_, c)) = closure(l) {
                    c.inputs.iter().any(|p| match p { Pat::Type(t) => is_fn_type(&t.ty), _ => false })
                } else if let Some((_, es)) = table(l) {
                    es.iter().any(|e| {
                        let mut u = Uses(HashSet::new());
                        visit::Visit::visit_expr(&mut u, e);
                        u.0.iter().any(|n| names.contains(n))
                    })
                } else {
                    false
                }
            }
            _ => false,
        })
    }

    pub fn run(b: &mut Block) -> Vec<String> {
        let mut s = Beta { env: BTreeMap::new(), tables: BTreeMap::new(), ctr: 0, errors: vec![] };
        // variables bound twice could be captured by the wrong binding
        let mut out = vec![];
        for mut st in b.stmts.drain(..) {
            if let Stmt::Local(l) = &st {
                if let Some((n, c)) = closure(l) {
                    s.env.insert(n, c);
                    continue;
                }
                if let Some((n, es)) = table(l) {
                    let mut u = Uses(HashSet::new());
                    es.iter().for_each(|e| visit::Visit::visit_expr(&mut u, e));
                    if u.0.iter().any(|n| s.env.contains_key(n)) {
                        s.tables.insert(n, es);
                        continue;
                    }
                }
            }
            s.visit_stmt_mut(&mut st);
            out.push(st);
        }
        b.stmts = out;
        s.errors
    }

    fn fresh(&mut self, n: &str) -> String {
        let r = format!("{}__b{}", n, self.ctr);
        self.ctr += 1;
        r
    }

    fn apply(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Expr {
        let mut l = Leaves(false);
        visit::Visit::visit_expr(&mut l, &c.body);
        if l.0 {
            self.errors.push("closure with an early return".to_string());
        }
        if c.inputs.len() != args.len() {
            self.errors.push("closure called with other arguments".to_string());
            return (*c.body).clone();
        }
        let mut map = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        for (p, a) in c.inputs.iter().zip(args) {
            match bare(p) {
                Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() => {
                    let n = i.ident.to_string();
                    if let Expr::Closure(k) = strip(&a) {
                        let f = self.fresh(&n);
                        self.env.insert(f.clone(), k.clone());
                        let f = format_ident!("{}", f);
                        map.insert(n, parse_quote!(#f));
                    } else if name_of(&a).map_or(false, |x| self.env.contains_key(&x)) {
                        map.insert(n, strip(&a).clone());
                    } else if matches!(&a, Expr::Path(_) | Expr::Lit(_)) {
                        map.insert(n, a);
                    } else {
                        let f = format_ident!("{}", self.fresh(&n));
                        lets.push(parse_quote!(let #f = #a;));
                        map.insert(n, parse_quote!(#f));
                    }
                }
                Pat::Wild(_) => {
                    if !matches!(&a, Expr::Path(_) | Expr::Lit(_)) {
                        lets.push(parse_quote!(let _ = #a;));
                    }
                }
                p => lets.push(parse_quote!(let #p = #a;)),
            }
        }
        let mut body = (*c.body).clone();
        Subst { map, errors: &mut self.errors }.visit_expr_mut(&mut body);
        if lets.is_empty() { body } else { parse_quote!({ #(#lets)* #body }) }
    }
}

impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.ctr > 2000 {
            self.errors.push("closures do not unfold".to_string());
            return;
        }
        if let Expr::Call(c) = e {
            if let Some(cl) = name_of(&c.func).and_then(|n| self.env.get(&n).cloned()) {
                self.ctr += 1;
                let args = c.args.iter().cloned().collect();
                let mut n = self.apply(&cl, args);
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
        }
        if let Expr::ForLoop(f) = e {
            let over = match strip(&f.expr) {
                Expr::MethodCall(m) if (m.method == "into_iter" || m.method == "iter" || m.method == "iter_mut") && m.args.is_empty() => name_of(&m.receiver),
                x => name_of(x),
            };
            if let Some(es) = over.and_then(|n| self.tables.get(&n).cloned()) {
                let mut j = Jumps(false);
                visit::Visit::visit_block(&mut j, &f.body);
                if j.0 {
                    self.errors.push("break in a loop over a table of closures".to_string());
                }
                let mut pat = bare(&f.pat).clone();
                if let Pat::Reference(r) = &pat {
                    pat = bare(&r.pat).clone();
                }
                let mut blocks: Vec<Expr> = vec![];
                for el in es {
                    let pairs: Vec<(Pat, Expr)> = match (&pat, strip(&el)) {
                        (Pat::Tuple(t), Expr::Tuple(x)) if t.elems.len() == x.elems.len() => t.elems.iter().cloned().zip(x.elems.iter().cloned()).collect(),
                        (p, x) => vec![(p.clone(), x.clone())],
                    };
                    let mut map = BTreeMap::new();
                    for (p, x) in pairs {
                        match bare(&p) {
                            Pat::Ident(i) => {
                                let known = name_of(&x).map_or(false, |n| self.env.contains_key(&n));
                                if let Expr::Closure(k) = strip(&x) {
                                    let f = self.fresh(&i.ident.to_string());
                                    self.env.insert(f.clone(), k.clone());
                                    let f = format_ident!("{}", f);
                                    map.insert(i.ident.to_string(), parse_quote!(#f));
                                } else if known || matches!(strip(&x), Expr::Lit(_)) {
                                    map.insert(i.ident.to_string(), strip(&x).clone());
                                } else {
                                    self.errors.push("table of closures with a computed entry".to_string());
                                }
                            }
                            Pat::Wild(_) => {}
                            _ => self.errors.push("pattern over a table of closures".to_string()),
                        }
                    }
                    let mut body = f.body.clone();
                    Subst { map, errors: &mut self.errors }.visit_block_mut(&mut body);
                    self.visit_block_mut(&mut body);
                    blocks.push(if body.stmts.len() == 1 {
                        match &body.stmts[0] { Stmt::Expr(x, None) => x.clone(), _ => parse_quote!(#body) }
                    } else {
                        parse_quote!(#body)
                    });
                }
                *e = parse_quote!({ #(#blocks)* });
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
