// C22: the source file of the index is compiled in place (`change` is a private function of it).
#![allow(dead_code)]
include!("/repo/indxr/src/lib.rs");

#[path = "../../common/mod.rs"]
#[macro_use]
mod common;
#[path = "../../common/files.rs"]
mod files;

use common::*;
use files::*;
use std::collections::BTreeMap;

/// operations on files below the root, each followed by the paths an observer is told about
fn check_history(seed: u64, steps: usize, batch: bool, small: bool) -> Result<bool, String> {
    let scratch = Scratch::new();
    let root = scratch.dir.join("root");
    std::fs::create_dir_all(&root).unwrap();
    let mut g = Rng::new(seed, 7, 7);
    let names: &'static [&'static str] = if small { SMALL } else { MANY };
    let mut log = vec![];
    for _ in 0..g.below(6) {
        some_op(&mut g, &root, names, &mut log);
    }
    let index = FileIndexImpl {
        file_set: IndexableFileSet::new(vec![root.clone()], "rs"),
        data: Default::default(),
        mapper: Box::new(map_file),
    };
    index.change(&root);
    log.push("[index]".to_string());
    let compare = |log: &Vec<String>| -> Result<(), String> {
        let want = wanted(&root);
        let data = index.data.lock().unwrap();
        let have: BTreeMap<String, String> = data.iter().map(|(k, f)| (rel(&root, k), f.value.clone())).collect();
        same!(have, want, "index after {}", log.join("; "));
        for (k, f) in data.iter() {
            same!(f.path, *k, "path of an entry after {}", log.join("; "));
        }
        Ok(())
    };
    compare(&log)?;
    let mut pending: Vec<PathBuf> = vec![];
    for step in 0..steps {
        pending.extend(some_op(&mut g, &root, names, &mut log));
        if g.chance(1, 6) {
            // a path nothing happened to
            let p = some_path(&mut g, &root, names, 3);
            log.push(format!("[also {}]", rel(&root, &p)));
            pending.push(p);
        }
        if !batch || step + 1 == steps || g.chance(1, 3) {
            log.push("[process]".to_string());
            for p in pending.drain(..) {
                index.change(&p);
            }
            compare(&log)?;
        }
    }
    // reading the index
    let n = index.data.lock().unwrap().len();
    let total = FileIndex { imp: Arc::new(index) };
    for stop in 0..n + 2 {
        let mut got = vec![];
        total.process_files(&mut |f| {
            got.push(f.path.clone());
            got.len() == stop
        });
        let k = got.len();
        same!(k, if stop == 0 { n } else { stop.min(n) }, "entries processed of {} when stopping at {}", n, stop);
        got.sort();
        got.dedup();
        same!(got.len(), k, "distinct entries processed");
    }
    Ok(n > 0)
}

fn c22() -> Vec<Phase> {
    fn ph(name: &'static str, batch: bool, small: bool, count: u64) -> Phase {
        phase(name, count, move |i, g| {
            let steps = g.range(1, if small { 5 } else { 14 });
            let seed = g.next() ^ i;
            Some(case(format!("history {} of {} operations, {}", seed, steps, if batch { "announced in batches" } else { "announced one by one" }),
                move || check_history(seed, steps, batch, small)))
        })
    }
    vec![ph("small", false, true, 1500), ph("batches", true, true, INF), ph("larger", false, false, INF), ph("larger_batches", true, false, INF)]
}

fn main() {
    common::main_with(|p| if p == "C22" { Some(c22()) } else { None })
}
