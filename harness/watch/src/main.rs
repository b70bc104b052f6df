// C22 through the public interface: a running index, real files and real notifications.
extern crate indxr;
extern crate notify;

#[path = "../../common/mod.rs"]
#[macro_use]
mod common;
#[path = "../../common/files.rs"]
mod files;

use common::*;
use files::*;
use indxr::{FileIndex, IndexableFileSet};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// how long an index may take to catch up with the files (its watcher waits for 2 s)
const PATIENCE: u64 = 30;

/// do notifications arrive here at all?
fn works() -> bool {
    use notify::{RecursiveMode, Watcher};
    let s = Scratch::new();
    let (tx, rx) = channel();
    let mut w = match notify::watcher(tx, Duration::from_millis(50)) {
        Ok(w) => w,
        Err(_) => return false,
    };
    if w.watch(&s.dir, RecursiveMode::Recursive).is_err() {
        return false;
    }
    if fs::write(s.dir.join("f"), "1").is_err() {
        return false;
    }
    rx.recv_timeout(Duration::from_secs(20)).is_ok()
}

fn content(index: &FileIndex<String>, base: &Path) -> Vec<(String, String)> {
    let mut v = vec![];
    index.process_files(&mut |f| {
        v.push((rel(base, &f.path), f.value.clone()));
        false
    });
    v.sort();
    v
}

fn want(base: &Path, roots: &[PathBuf]) -> Vec<(String, String)> {
    let mut m = BTreeMap::new();
    for r in roots {
        for (k, v) in wanted(r) {
            m.insert(rel(base, &r.join(k)), v);
        }
    }
    m.into_iter().collect()
}

fn settle(index: &FileIndex<String>, base: &Path, roots: &[PathBuf], what: &str) -> Result<(), String> {
    let start = Instant::now();
    loop {
        let (have, want) = (content(index, base), want(base, roots));
        if have == want {
            return Ok(());
        }
        if start.elapsed() > Duration::from_secs(PATIENCE) {
            return Err(format!("{} s after {}: the index holds {:?}, the files are {:?}", PATIENCE, what, have, want));
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

type Act = Box<dyn Fn(&Path) + Send + Sync>;
struct Scene {
    what: &'static str,
    relative: bool,
    roots: &'static [&'static str],
    /// done while the given file is indexed for the first time
    during: Option<(&'static str, Act)>,
    acts: Vec<Act>,
}

fn put(p: PathBuf, t: &str) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, t).unwrap();
}

fn scene(what: &'static str, acts: Vec<Act>) -> Scene {
    Scene { what, relative: false, roots: &["r"], during: None, acts }
}

fn scenes() -> Vec<Scene> {
    vec![
        scene("creating a file", vec![Box::new(|b| fs::write(b.join("r/n.rs"), "n").unwrap())]),
        scene("modifying a file", vec![Box::new(|b| fs::write(b.join("r/a/x.rs"), "changed").unwrap())]),
        scene("removing a file", vec![Box::new(|b| fs::remove_file(b.join("r/a/x.rs")).unwrap())]),
        scene("renaming a file", vec![Box::new(|b| fs::rename(b.join("r/a/x.rs"), b.join("r/a/y.rs")).unwrap())]),
        scene("renaming a file over another", vec![Box::new(|b| fs::rename(b.join("r/a/x.rs"), b.join("r/z.rs")).unwrap())]),
        scene("renaming a directory", vec![Box::new(|b| fs::rename(b.join("r/a"), b.join("r/c")).unwrap())]),
        scene("moving a directory out", vec![Box::new(|b| fs::rename(b.join("r/a"), b.join("out/a")).unwrap())]),
        scene("moving a directory in", vec![Box::new(|b| fs::rename(b.join("out/d"), b.join("r/d")).unwrap())]),
        scene("moving a file out", vec![Box::new(|b| fs::rename(b.join("r/a/x.rs"), b.join("out/x.rs")).unwrap())]),
        scene("moving a file in", vec![Box::new(|b| fs::rename(b.join("out/o.rs"), b.join("r/a/o.rs")).unwrap())]),
        scene("removing a directory", vec![Box::new(|b| fs::remove_dir_all(b.join("r/a")).unwrap())]),
        scene("creating directories", vec![Box::new(|b| put(b.join("r/m/n/q.rs"), "q"))]),
        scene("removing all files, one after the other", vec![
            Box::new(|b| fs::remove_file(b.join("r/a/x.rs")).unwrap()),
            Box::new(|b| fs::remove_file(b.join("r/a/b/y.rs")).unwrap()),
            Box::new(|b| fs::remove_file(b.join("r/z.rs")).unwrap()),
        ]),
        scene("modifying a file again and again", vec![
            Box::new(|b| fs::write(b.join("r/z.rs"), "z2").unwrap()),
            Box::new(|b| fs::write(b.join("r/z.rs"), "!z3").unwrap()),
            Box::new(|b| fs::write(b.join("r/z.rs"), "z4").unwrap()),
        ]),
        Scene { what: "modifying a file below a relative root", relative: true, roots: &["r"], during: None, acts: vec![
            Box::new(|b| fs::write(b.join("r/z.rs"), "z2").unwrap()),
            Box::new(|b| fs::remove_file(b.join("r/a/x.rs")).unwrap()),
        ] },
        Scene { what: "changing files below two roots", relative: false, roots: &["r", "s"], during: None, acts: vec![
            Box::new(|b| fs::write(b.join("s/t.rs"), "t2").unwrap()),
            Box::new(|b| fs::remove_file(b.join("r/a/x.rs")).unwrap()),
        ] },
        Scene { what: "a missing root", relative: false, roots: &["none", "r"], during: None, acts: vec![] },
        Scene { what: "changes below the first root while the second is indexed", relative: false, roots: &["r", "s"],
            during: Some(("t.rs", Box::new(|b| { put(b.join("r/late.rs"), "late"); fs::remove_file(b.join("r/z.rs")).unwrap(); }))), acts: vec![] },
        Scene { what: "changes during the indexing of a root", relative: false, roots: &["r"],
            during: Some(("x.rs", Box::new(|b| { put(b.join("r/late.rs"), "late"); put(b.join("r/a/b/y.rs"), "late"); }))), acts: vec![] },
    ]
}

fn play(s: Scene) -> Result<(), String> {
    let scratch = Scratch::new();
    let base = scratch.dir.clone();
    for (p, t) in [("r/a/x.rs", "x"), ("r/a/b/y.rs", "y"), ("r/z.rs", "z"), ("r/u.txt", "u"), ("r/v.rs", "!v"), ("s/t.rs", "t"), ("out/o.rs", "o"), ("out/d/e.rs", "e")].iter() {
        put(base.join(p), t);
    }
    let roots: Vec<PathBuf> = s.roots.iter().map(|r| base.join(r)).collect();
    let cwd = std::env::current_dir().unwrap();
    let given = roots.iter().map(|r| if s.relative { r.strip_prefix(&cwd).unwrap().to_path_buf() } else { r.clone() }).collect();
    let during = Mutex::new(s.during);
    let base2 = base.clone();
    let index = FileIndex::new(IndexableFileSet::new(given, "rs"), Box::new(move |p: &Path| {
        let v = map_file(p);
        let mut d = during.lock().unwrap();
        if d.as_ref().map_or(false, |d| p.ends_with(d.0)) {
            (d.take().unwrap().1)(&base2);
        }
        v
    }));
    settle(&index, &base, &roots, &format!("start ({})", s.what))?;
    // the watching thread has no way to say that it is listening
    std::thread::sleep(Duration::from_millis(700));
    for a in &s.acts {
        a(&base);
        settle(&index, &base, &roots, s.what)?;
    }
    Ok(())
}

fn c22() -> Vec<Phase> {
    CASE_SECS.store(230, std::sync::atomic::Ordering::Relaxed);
    let n = scenes().len();
    if !works() {
        return vec![];
    }
    // an index never gives its watchers back, and there can be 128 of them
    vec![phase("scenes", 3, move |i, _| {
        Some(case(format!("{} scenes, round {}: {}", n, i, scenes().iter().map(|s| s.what).collect::<Vec<_>>().join(", ")), move || {
            // a few at a time: each index has a watcher of its own per root
            let queue = Arc::new(Mutex::new(scenes()));
            let ts: Vec<_> = (0..5).map(|_| {
                let queue = queue.clone();
                std::thread::spawn(move || -> Result<(), String> {
                    loop {
                        let s = match queue.lock().unwrap().pop() {
                            Some(s) => s,
                            None => return Ok(()),
                        };
                        let what = s.what;
                        if play(s).is_err() {
                            // once more: the first time may have been too slow
                            let again = scenes().into_iter().find(|s| s.what == what).unwrap();
                            if let Err(e) = play(again) {
                                // an index cannot follow without notifications
                                return if works() { Err(e) } else { Ok(()) };
                            }
                        }
                    }
                })
            }).collect();
            let mut r = Ok(true);
            for t in ts {
                match t.join() {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => r = Err(e),
                    Err(_) => r = Err("a scene panics".to_string()),
                }
            }
            r
        }))
    })]
}

fn main() {
    common::main_with(|p| if p == "C22" { Some(c22()) } else { None })
}
