//! Finds items in /repo's sources by path and turns them into desugared token lists.
use crate::desugar::{Clean, Config, Ds};
use crate::toks::{flatten, Rewrite, Tok};
use quote::ToTokens;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Repo {
    root: PathBuf,
    files: HashMap<String, std::result::Result<File, String>>,
}

pub struct Extracted {
    pub toks: Vec<Tok>,
    pub hoisted: Vec<String>,
}

fn norm<T: ToTokens>(t: &T) -> String {
    flatten(t.to_token_stream()).iter().filter(|t| !t.s.starts_with('\'')).map(|t| t.s.clone()).collect::<Vec<_>>().join("")
}

fn ty_matches(ty: &Type, want: &str) -> bool {
    if norm(ty) == want.replace(' ', "") {
        return true;
    }
    match ty {
        Type::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == want),
        Type::Reference(r) => want.starts_with('&') && ty_matches(&r.elem, &want[1..]),
        _ => false,
    }
}

fn path_matches(p: &syn::Path, want: &str) -> bool {
    let last = match p.segments.last() {
        Some(l) => l,
        None => return false,
    };
    if want.contains('<') {
        norm(last) == want.replace(' ', "")
    } else {
        last.ident == want
    }
}

enum Found {
    Fn(ItemFn, bool),
    Item(Item),
}

fn split_path(p: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut depth = 0;
    let cs: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '<' => depth += 1,
            '>' => depth -= 1,
            _ => {}
        }
        if depth == 0 && cs[i] == ':' && i + 1 < cs.len() && cs[i + 1] == ':' {
            out.push(std::mem::take(&mut cur));
            i += 2;
            continue;
        }
        cur.push(cs[i]);
        i += 1;
    }
    out.push(cur);
    out
}

fn find(items: &[Item], path: &[String], self_ty_subst: bool) -> Option<Found> {
    if path.len() == 1 {
        let want = &path[0];
        for it in items {
            match it {
                Item::Fn(f) if f.sig.ident == want => return Some(Found::Fn(f.clone(), true)),
                _ => {}
            }
        }
        let (kind, name) = want.split_once(':').unwrap_or(("", ""));
        for it in items {
            match (kind, it) {
                ("struct", Item::Struct(s)) if s.ident == name => return Some(Found::Item(it.clone())),
                ("enum", Item::Enum(s)) if s.ident == name => return Some(Found::Item(it.clone())),
                ("const", Item::Const(s)) if s.ident == name => return Some(Found::Item(it.clone())),
                ("type", Item::Type(s)) if s.ident == name => return Some(Found::Item(it.clone())),
                _ => {}
            }
        }
        return None;
    }
    // module?
    for it in items {
        if let Item::Mod(m) = it {
            if m.ident == path[0] {
                if let Some((_, its)) = &m.content {
                    if let Some(f) = find(its, &path[1..], self_ty_subst) {
                        return Some(f);
                    }
                }
            }
        }
    }
    if path.len() != 2 {
        return None;
    }
    let method = &path[1];
    let as_fn = |f: &ImplItemFn, inherent: bool| {
        let mut sig = f.sig.clone();
        let _ = &mut sig;
        Found::Fn(ItemFn { attrs: vec![], vis: if inherent { Visibility::Public(Default::default()) } else { Visibility::Inherited }, sig, block: Box::new(f.block.clone()) }, inherent)
    };
    if let Some(inner) = path[0].strip_prefix('<').and_then(|s| s.strip_suffix('>')) {
        let (ty, tr) = inner.split_once(" as ")?;
        for it in items {
            if let Item::Impl(im) = it {
                if let Some((_, p, _)) = &im.trait_ {
                    if path_matches(p, tr.trim()) && ty_matches(&im.self_ty, ty.trim()) {
                        for ii in &im.items {
                            if let ImplItem::Fn(f) = ii {
                                if f.sig.ident == method {
                                    return Some(as_fn(f, false));
                                }
                            }
                        }
                    }
                }
            }
        }
        return None;
    }
    for it in items {
        match it {
            Item::Impl(im) if im.trait_.is_none() && ty_matches(&im.self_ty, &path[0]) => {
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if f.sig.ident == method {
                            return Some(as_fn(f, true));
                        }
                    }
                }
            }
            Item::Trait(t) if t.ident == path[0] => {
                for ii in &t.items {
                    if let TraitItem::Fn(f) = ii {
                        if f.sig.ident == method {
                            let b = match &f.default {
                                Some(b) => b.clone(),
                                None => return None,
                            };
                            return Some(Found::Fn(ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: f.sig.clone(), block: Box::new(b) }, false));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

impl Repo {
    pub fn new(root: &Path) -> Repo {
        Repo { root: root.to_owned(), files: HashMap::new() }
    }

    fn file(&mut self, path: &str) -> std::result::Result<&File, String> {
        if !self.files.contains_key(path) {
            let r = std::fs::read_to_string(self.root.join(path))
                .map_err(|e| format!("{}: {}", path, e))
                .and_then(|t| syn::parse_file(&t).map_err(|e| format!("{}: {}", path, e)));
            self.files.insert(path.to_string(), r);
        }
        match &self.files[path] {
            Ok(f) => Ok(f),
            Err(e) => Err(e.clone()),
        }
    }

    fn find_anywhere(&mut self, file: &str, path: &[String]) -> std::result::Result<Found, String> {
        let first = self.file(file).map(|f| find(&f.items, path, false));
        match first {
            Ok(Some(f)) => return Ok(f),
            _ => {}
        }
        // moved to another file of the same crate?
        if let Some(i) = file.find("/src/") {
            let dir = self.root.join(&file[..i + 5]);
            let mut stack = vec![dir];
            let mut hits = vec![];
            while let Some(d) = stack.pop() {
                if let Ok(rd) = std::fs::read_dir(&d) {
                    for e in rd.flatten() {
                        let p = e.path();
                        if p.is_dir() {
                            stack.push(p);
                        } else if p.extension().map_or(false, |x| x == "rs") {
                            hits.push(p);
                        }
                    }
                }
            }
            hits.sort();
            let mut found = vec![];
            for p in hits {
                let rel = p.strip_prefix(&self.root).unwrap().to_string_lossy().to_string();
                if rel == file {
                    continue;
                }
                if let Ok(f) = self.file(&rel) {
                    if let Some(x) = find(&f.items, path, false) {
                        found.push(x);
                    }
                }
            }
            if found.len() == 1 {
                return Ok(found.pop().unwrap());
            }
        }
        Err(format!("not found: {} in {}", path.join("::"), file))
    }

    /// `path` may end in `/inner` for a function nested in (or a closure local to) a function
    pub fn extract(&mut self, file: &str, path: &str, cfg: &Config, rewrites: &[Rewrite], drop_where: bool) -> std::result::Result<Extracted, String> {
        let _ = drop_where;
        let mut parts = path.split('/');
        let top = parts.next().unwrap();
        let inner: Vec<&str> = parts.collect();
        let sp = split_path(top);
        let f = match self.find_anywhere(file, &sp)? {
            Found::Item(mut it) => {
                Clean(cfg).visit_item_mut(&mut it);
                // variants of an enum have no visibility
                if let Item::Enum(e) = &mut it {
                    for v in &mut e.variants {
                        for f in v.fields.iter_mut() {
                            f.vis = Visibility::Inherited;
                        }
                    }
                }
                let mut toks = flatten(it.to_token_stream());
                for r in rewrites.iter().filter(|r| !r.pre) {
                    r.apply(&mut toks);
                }
                return Ok(Extracted { toks, hoisted: vec![] });
            }
            Found::Fn(f, inherent) => (f, inherent),
        };
        let (mut f, inherent) = f;
        if rewrites.iter().any(|r| r.pre) {
            let mut toks = flatten(f.to_token_stream());
            for r in rewrites.iter().filter(|r| r.pre) {
                r.apply(&mut toks);
            }
            f = parse_str(&crate::toks::print(&toks)).map_err(|e| format!("after the rewriting: {}", e))?;
        }
        let outer_name = f.sig.ident.to_string();
        let mut ds = Ds::new(cfg, &outer_name);
        ds.fn_body(&mut f.sig, &mut f.block);
        let mut errors = ds.errors.clone();
        let mut hoisted: Vec<ItemFn> = ds.hoisted;
        let names: Vec<String> = hoisted.iter().map(|h| h.sig.ident.to_string()).collect();
        let mut inherent = inherent;
        if let Some(want) = inner.first() {
            let full = format!("{}__{}", outer_name, want);
            let k = hoisted.iter().position(|h| h.sig.ident == full).ok_or(format!("no nested function {}", path))?;
            f = hoisted.remove(k);
            inherent = true;
            let mut d2 = Ds::new(cfg, &full);
            d2.fn_body(&mut f.sig, &mut f.block);
            errors = d2.errors.clone();
        }
        if !errors.is_empty() {
            return Err(format!("outside the dialect: {}", errors.join("; ")));
        }
        Clean(cfg).visit_item_fn_mut(&mut f);
        f.vis = if inherent { Visibility::Public(Default::default()) } else { Visibility::Inherited };
        let mut toks = flatten(f.to_token_stream());
        for r in rewrites.iter().filter(|r| !r.pre) {
            r.apply(&mut toks);
        }
        Ok(Extracted { toks, hoisted: names })
    }
}
