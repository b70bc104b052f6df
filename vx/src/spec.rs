//! Spec files: verbatim Verus text with annotated copies of functions between directives.
use crate::desugar::Config;
use crate::toks::{lex, Rewrite, Tok};
use std::path::Path;

pub struct Annotated {
    pub file: String,
    pub path: String,
    pub name: String,
    pub kind: String,
    /// base tokens of the annotated copy
    pub base: Vec<Tok>,
    /// (gap index, ghost text): text goes before base[gap]
    pub ghosts: Vec<(usize, String)>,
    pub flags: Vec<String>,
    pub rewrites: Vec<Rewrite>,
}

pub enum Sec {
    Verbatim(String),
    Ann(Annotated),
}

pub struct Spec {
    pub secs: Vec<Sec>,
    pub cfg: Config,
    pub rewrites: Vec<Rewrite>,
    pub owner: Vec<String>,
}

pub fn split_ghost(text: &str) -> Result<(Vec<Tok>, Vec<(usize, String)>), String> {
    let mut plain = String::new();
    let mut ghosts: Vec<String> = vec![];
    let mut rest = text;
    while let Some(i) = rest.find('«') {
        plain.push_str(&rest[..i]);
        let after = &rest[i + '«'.len_utf8()..];
        let j = after.find('»').ok_or("unclosed «")?;
        plain.push_str(&format!(" __ghost_{}__ ", ghosts.len()));
        ghosts.push(after[..j].to_string());
        rest = &after[j + '»'.len_utf8()..];
    }
    plain.push_str(rest);
    let toks = lex(&plain)?;
    let mut base = vec![];
    let mut gs = vec![];
    for t in toks {
        if let Some(n) = t.s.strip_prefix("__ghost_").and_then(|s| s.strip_suffix("__")) {
            let k: usize = n.parse().unwrap();
            gs.push((base.len(), ghosts[k].clone()));
        } else {
            base.push(t);
        }
    }
    if gs.len() != ghosts.len() {
        return Err("a ghost segment was lost (inside a comment or string?)".into());
    }
    Ok((base, gs))
}

impl Spec {
    pub fn new() -> Spec {
        Spec { secs: vec![], cfg: Config::default(), rewrites: vec![], owner: vec![] }
    }

    pub fn load(&mut self, path: &Path) -> Result<(), String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
        let dir = path.parent().unwrap();
        let mut verb = String::new();
        let mut lines = text.lines();
        let mut local_rewrites: Vec<Rewrite> = vec![];
        let outer_owner = self.owner.clone();
        while let Some(l) = lines.next() {
            let t = l.trim_start();
            if !t.starts_with("//@") {
                verb.push_str(l);
                verb.push('\n');
                continue;
            }
            let d = t[3..].trim();
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match word {
                "include" => {
                    self.secs.push(Sec::Verbatim(std::mem::take(&mut verb)));
                    self.load(&dir.join(rest))?;
                }
                "owner" => self.owner = rest.split_whitespace().map(|s| s.to_string()).collect(),
                "iterfn" => self.cfg.iter_fns.extend(rest.split_whitespace().map(|s| s.to_string())),
                "strlit" => self.cfg.strlit = true,
                "dropmod" => self.cfg.drop_mods.extend(rest.split_whitespace().map(|s| s.to_string())),
                "rewrite" => self.rewrites.push(Rewrite::parse(rest)?),
                "rewrite0" => { let mut r = Rewrite::parse(rest)?; r.pre = true; local_rewrites.push(r) },
                "rewrite1" => local_rewrites.push(Rewrite::parse(rest)?),
                "fn" | "item" => {
                    self.secs.push(Sec::Verbatim(std::mem::take(&mut verb)));
                    let mut body = String::new();
                    loop {
                        let l = lines.next().ok_or(format!("{}: missing //@end for {}", path.display(), rest))?;
                        if l.trim_start().starts_with("//@end") {
                            break;
                        }
                        body.push_str(l);
                        body.push('\n');
                    }
                    let mut flags: Vec<String> = vec![];
                    let mut words: Vec<&str> = vec![];
                    let (main, fl) = rest.split_once(" ## ").unwrap_or((rest, ""));
                    flags.extend(fl.split_whitespace().map(|s| s.to_string()));
                    if !flags.iter().any(|f| f.starts_with('C')) {
                        flags.extend(self.owner.clone());
                    }
                    words.extend(main.splitn(2, ' '));
                    if words.len() != 2 {
                        return Err(format!("bad directive: {}", d));
                    }
                    let (base, ghosts) = split_ghost(&body).map_err(|e| format!("{} {}: {}", path.display(), rest, e))?;
                    let p = words[1].trim().to_string();
                    self.secs.push(Sec::Ann(Annotated { file: words[0].to_string(), name: flags.iter().find_map(|f| f.strip_prefix("as:")).map(|s| s.to_string()).unwrap_or(p.clone()), path: p, kind: word.to_string(), base, ghosts, flags, rewrites: std::mem::take(&mut local_rewrites) }));
                }
                w => return Err(format!("{}: unknown directive {}", path.display(), w)),
            }
        }
        self.secs.push(Sec::Verbatim(verb));
        self.owner = outer_owner;
        Ok(())
    }
}
