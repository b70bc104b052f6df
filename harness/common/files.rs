#![allow(dead_code)]
// Scratch directories and operations on the files in them (C22).
use crate::common::Rng;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Scratch {
    pub dir: PathBuf,
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    /// a fresh directory below the current one, removed afterwards
    pub fn new() -> Scratch {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let dir = std::env::current_dir().unwrap().join(format!("scratch_{}_{}", std::process::id(), n));
        fs::create_dir_all(&dir).unwrap();
        Scratch { dir }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

pub fn rel(root: &Path, p: &Path) -> String {
    match p.strip_prefix(root) {
        Ok(r) => r.display().to_string(),
        Err(_) => format!("outside:{}", p.display()),
    }
}

/// the value kept for a file; none for files that start with `!`
pub fn map_file(p: &Path) -> Option<String> {
    let t = fs::read_to_string(p).ok()?;
    if t.starts_with('!') { None } else { Some(t) }
}

/// what the index should hold
pub fn wanted(root: &Path) -> BTreeMap<String, String> {
    fn go(root: &Path, d: &Path, out: &mut BTreeMap<String, String>) {
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd {
                let p = e.unwrap().path();
                let m = fs::symlink_metadata(&p).unwrap();
                if m.is_dir() {
                    go(root, &p, out);
                } else if m.is_file() && p.extension().map_or(false, |x| x == "rs") {
                    if let Some(v) = map_file(&p) {
                        out.insert(rel(root, &p), v);
                    }
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    go(root, root, &mut out);
    out
}

pub const SMALL: &[&str] = &["a", "b.rs"];
pub const MANY: &[&str] = &["a", "ab", "b", "a.rs", "ab.rs", "b.rs", "x.txt", "é.rs", ".rs", "rs", "a b.rs", "c.RS", "d.rs.rs"];

pub fn some_path(g: &mut Rng, root: &Path, names: &[&str], depth: usize) -> PathBuf {
    let mut p = root.to_path_buf();
    for _ in 0..g.range(1, depth) {
        p.push(*g.pick(names));
    }
    p
}

fn remove(p: &Path) {
    if p.is_dir() {
        let _ = fs::remove_dir_all(p);
    } else {
        let _ = fs::remove_file(p);
    }
}

/// the directories above `p` exist afterwards; returns the topmost path that changed
fn make_room(root: &Path, p: &Path, changed: &mut Vec<PathBuf>) {
    let mut above: Vec<&Path> = p.ancestors().skip(1).take_while(|a| *a != root).collect();
    above.reverse();
    for a in above {
        if !a.is_dir() {
            remove(a);
            fs::create_dir(a).unwrap();
            changed.push(a.to_path_buf());
        }
    }
}

/// one operation; the paths below which files may have changed
pub fn some_op(g: &mut Rng, root: &Path, names: &[&str], log: &mut Vec<String>) -> Vec<PathBuf> {
    let mut changed = vec![];
    let p = some_path(g, root, names, 3);
    match g.below(10) {
        0 | 1 | 2 => {
            make_room(root, &p, &mut changed);
            remove(&p);
            let text = format!("{}{}", if g.chance(1, 5) { "!" } else { "" }, g.below(1000));
            fs::write(&p, &text).unwrap();
            log.push(format!("write {} {:?}", rel(root, &p), text));
            changed.push(p);
        }
        3 => {
            if p.is_file() {
                fs::write(&p, format!("{}", g.below(1000))).unwrap();
                log.push(format!("rewrite {}", rel(root, &p)));
                changed.push(p);
            }
        }
        4 => {
            make_room(root, &p, &mut changed);
            remove(&p);
            fs::create_dir(&p).unwrap();
            log.push(format!("mkdir {}", rel(root, &p)));
            // files made right after the directory may be announced by it only
            for _ in 0..g.below(3) {
                let q = some_path(g, &p, names, 1);
                remove(&q);
                fs::write(&q, format!("{}", g.below(1000))).unwrap();
                log.push(format!("write {}", rel(root, &q)));
            }
            changed.push(p);
        }
        5 | 6 => {
            remove(&p);
            log.push(format!("remove {}", rel(root, &p)));
            changed.push(p);
        }
        _ => {
            let q = some_path(g, root, names, 3);
            if p.exists() && !q.starts_with(&p) && !p.starts_with(&q) {
                make_room(root, &q, &mut changed);
                if p.exists() {
                    remove(&q);
                    fs::rename(&p, &q).unwrap();
                    log.push(format!("rename {} to {}", rel(root, &p), rel(root, &q)));
                    changed.push(p);
                    changed.push(q);
                }
            }
        }
    }
    changed
}
