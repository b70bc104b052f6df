//! Flat token lists: what the alignment compares and what the emitter prints.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub joint: bool,
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.s == o.s
    }
}

impl Tok {
    pub fn is_ident(&self) -> bool {
        self.s.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_')
    }
}

pub fn flatten(ts: TokenStream) -> Vec<Tok> {
    let mut out = Vec::new();
    go(ts, &mut out);
    // join lifetimes
    let mut res: Vec<Tok> = Vec::new();
    let mut i = 0;
    while i < out.len() {
        if out[i].s == "'" && i + 1 < out.len() {
            res.push(Tok { s: format!("'{}", out[i + 1].s), joint: false });
            i += 2;
            continue;
        }
        res.push(out[i].clone());
        i += 1;
    }
    // drop trailing commas before a closing delimiter: they mean nothing, and differ between printers
    // (kept inside one-element tuples)
    res
}

fn go(ts: TokenStream, out: &mut Vec<Tok>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    out.push(Tok { s: a.into(), joint: false });
                }
                go(g.stream(), out);
                if !b.is_empty() {
                    out.push(Tok { s: b.into(), joint: false });
                }
            }
            TokenTree::Ident(i) => out.push(Tok { s: i.to_string(), joint: false }),
            TokenTree::Punct(p) => {
                out.push(Tok { s: p.as_char().to_string(), joint: p.spacing() == Spacing::Joint })
            }
            TokenTree::Literal(l) => {
                let s = l.to_string();
                let prev_dot = out.last().map_or(false, |t| t.s == ".");
                if prev_dot && s.contains('.') && s.chars().all(|c| c.is_ascii_digit() || c == '.') {
                    let mut first = true;
                    for part in s.split('.') {
                        if !first {
                            out.push(Tok { s: ".".into(), joint: false });
                        }
                        first = false;
                        if !part.is_empty() {
                            out.push(Tok { s: part.into(), joint: false });
                        }
                    }
                } else {
                    out.push(Tok { s, joint: false })
                }
            }
        }
    }
}

pub fn print(toks: &[Tok]) -> String {
    let mut s = String::new();
    for t in toks {
        s.push_str(&t.s);
        if t.s == ";" || t.s == "{" || t.s == "}" {
            s.push('\n');
        } else if !t.joint {
            s.push(' ');
        }
    }
    s
}

pub fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let ts: TokenStream = s.parse().map_err(|e| format!("cannot tokenize: {}", e))?;
    Ok(flatten(ts))
}

/// `pattern => replacement` over token lists; `$x` matches a balanced run of tokens.
#[derive(Clone)]
pub struct Rewrite {
    pub text: String,
    /// before the desugaring
    pub pre: bool,
    pat: Vec<Tok>,
    rep: Vec<Tok>,
}

fn with_vars(v: Vec<Tok>) -> Vec<Tok> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i].s == "$" && i + 1 < v.len() {
            r.push(Tok { s: format!("${}", v[i + 1].s), joint: false });
            i += 2;
        } else {
            r.push(v[i].clone());
            i += 1;
        }
    }
    r
}

impl Rewrite {
    pub fn parse(text: &str) -> Result<Rewrite, String> {
        let i = text.find("==>").ok_or("rewrite needs ==>")?;
        // unbalanced brackets may appear in a pattern: tokenize by words
        let f = |s: &str| -> Vec<Tok> {
            s.split_whitespace()
                .flat_map(|w| {
                    if w.len() == 1 || w.starts_with('$') {
                        vec![Tok { s: w.into(), joint: false }]
                    } else {
                        match lex(w) {
                            Ok(t) => with_vars(t),
                            Err(_) => w.chars().map(|c| Tok { s: c.to_string(), joint: false }).collect(),
                        }
                    }
                })
                .collect()
        };
        Ok(Rewrite { text: text.trim().to_string(), pre: false, pat: f(&text[..i]), rep: f(&text[i + 3..]) })
    }

    fn match_at(&self, toks: &[Tok], at: usize) -> Option<(usize, Vec<(String, Vec<Tok>)>)> {
        let mut binds: Vec<(String, Vec<Tok>)> = Vec::new();
        let mut i = at;
        let mut p = 0;
        while p < self.pat.len() {
            let pt = &self.pat[p];
            if pt.s.starts_with('$') {
                // match lazily until next literal, balanced
                let stop = self.pat.get(p + 1);
                let mut run = p + 1;
                while run < self.pat.len() && !self.pat[run].s.starts_with('$') {
                    run += 1;
                }
                let lits = &self.pat[(p + 1).min(self.pat.len())..run];
                let start = i;
                let mut depth = 0i32;
                loop {
                    let t = toks.get(i)?;
                    if depth == 0 {
                        if stop.is_some() && toks.len() >= i + lits.len() && toks[i..i + lits.len()] == *lits {
                            break;
                        }
                    }
                    match t.s.as_str() {
                        "(" | "[" | "{" => depth += 1,
                        ")" | "]" | "}" => {
                            depth -= 1;
                            if depth < 0 {
                                return None;
                            }
                        }
                        // `$X` (upper case) may span statements
                        ";" if depth == 0 && !pt.s[1..].starts_with(char::is_uppercase) => return None,
                        _ => {}
                    }
                    i += 1;
                    if stop.is_none() {
                        break;
                    }
                }
                binds.push((pt.s.clone(), toks[start..i].to_vec()));
                p += 1;
            } else {
                if toks.get(i)? != pt {
                    return None;
                }
                i += 1;
                p += 1;
            }
        }
        Some((i - at, binds))
    }

    pub fn apply(&self, toks: &mut Vec<Tok>) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < toks.len() {
            if let Some((len, binds)) = self.match_at(toks, i) {
                let mut rep = Vec::new();
                for t in &self.rep {
                    if t.s.starts_with('$') {
                        match binds.iter().find(|b| b.0 == t.s) {
                            Some(b) => rep.extend(b.1.clone()),
                            None => rep.push(t.clone()),
                        }
                    } else {
                        rep.push(t.clone())
                    }
                }
                let l = rep.len();
                toks.splice(i..i + len, rep);
                i += l.max(1);
                n += 1;
            } else {
                i += 1;
            }
        }
        n
    }
}
