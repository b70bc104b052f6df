mod align;
mod beta;
mod desugar;
mod extract;
mod spec;
mod toks;

use spec::{Sec, Spec};
use std::collections::HashSet;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use toks::Tok;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// index of the `{` that opens the function's body, or None
fn body_open(toks: &[Tok]) -> Option<usize> {
    // a function's token list ends with the body's closing brace
    let mut depth = 0i32;
    for k in (0..toks.len()).rev() {
        match toks[k].s.as_str() {
            "}" => depth += 1,
            "{" => {
                depth -= 1;
                if depth == 0 {
                    return Some(k);
                }
            }
            _ => {}
        }
    }
    None
}

fn has_requires(ghosts: &[(usize, String)], open: usize) -> bool {
    ghosts.iter().any(|g| g.0 <= open && g.1.contains("requires"))
}

struct Emitted {
    text: String,
    map: Vec<String>,
}

fn weave(toks: &[Tok], ghosts: &[(usize, String)]) -> String {
    let mut s = String::new();
    let mut g = 0;
    for k in 0..=toks.len() {
        while g < ghosts.len() && ghosts[g].0 == k {
            s.push(' ');
            s.push_str(&ghosts[g].1);
            s.push(' ');
            g += 1;
        }
        if k < toks.len() {
            let t = &toks[k];
            s.push_str(&t.s);
            if t.s == ";" || t.s == "{" || t.s == "}" {
                s.push('\n');
            } else if !t.joint || ghosts.get(g).map_or(false, |x| x.0 == k + 1) {
                s.push(' ');
            }
        }
    }
    s.push('\n');
    s
}

fn emit(repo: &Path, specs: &[PathBuf], external: &HashSet<String>, probe: bool, force_base: bool) -> Result<Emitted, String> {
    let mut spec = Spec::new();
    for s in specs {
        spec.load(s)?;
    }
    let mut repo = extract::Repo::new(repo);
    let mut text = String::new();
    let mut map = vec![];
    for sec in &spec.secs {
        match sec {
            Sec::Verbatim(v) => text.push_str(v),
            Sec::Ann(a) => {
                let trusted = a.flags.iter().any(|f| f == "assumed");
                let mut rw = a.rewrites.clone();
                rw.extend(spec.rewrites.clone());
                let ex = repo.extract(&a.file, &a.path, &spec.cfg, &rw, false);
                let mut status;
                let mut reason = String::new();
                let mut lost = 0;
                let mut loops_same = true;
                let mut edits = 0;
                let (mut toks, mut ghosts) = (a.base.clone(), a.ghosts.clone());
                match ex {
                    Ok(e) => {
                        let p = align::place(&a.base, &a.ghosts, &e.toks);
                        edits = p.edits;
                        lost = p.lost;
                        loops_same = p.loops_same;
                        status = if p.edits == 0 { "exact" } else { "changed" };
                        if !(force_base) {
                            toks = e.toks;
                            ghosts = p.ghosts;
                        }
                    }
                    Err(e) => {
                        status = "lost";
                        reason = e;
                    }
                }
                if a.kind == "fn" {
                    if external.contains(&a.name) && status != "lost" {
                        status = "external";
                    }
                    if status == "lost" || status == "external" || trusted {
                        // contract assumed; the annotated copy's signature is used
                        toks = a.base.clone();
                        ghosts = a.ghosts.clone();
                        let open = body_open(&toks).ok_or(format!("no body in {}", a.name))?;
                        let mut t2 = toks[..=open].to_vec();
                        for s in ["vunreachable", "(", ")"] {
                            t2.push(Tok { s: s.into(), joint: false });
                        }
                        t2.push(Tok { s: "}".into(), joint: false });
                        toks = t2;
                        ghosts.retain(|g| g.0 <= open);
                        ghosts.insert(0, (0, "#[verifier::external_body]".into()));
                        if trusted && status != "lost" {
                            status = "assumed";
                        }
                    } else if probe {
                        for g in ghosts.iter_mut() {
                            if g.1.contains("#[verifier::rlimit") {
                                g.1 = g.1.replace("#[verifier::rlimit(100)]", "#[verifier::rlimit(3)]");
                            }
                        }
                        let open = body_open(&toks).ok_or(format!("no body in {}", a.name))?;
                        if has_requires(&ghosts, open) || a.flags.iter().any(|f| f == "probe") {
                            let mut at = ghosts.iter().position(|g| g.0 > open).unwrap_or(ghosts.len());
                            while at < ghosts.len() && ghosts[at].0 == open + 1 && ghosts[at].1.trim_start().starts_with("hide") {
                                at += 1;
                            }
                            ghosts.insert(at, (open + 1, "proof { assert(false); }".into()));
                            reason = "probe".into();
                        }
                    }
                }
                let start = text.matches('\n').count() + 1;
                text.push_str(&weave(&toks, &ghosts));
                let end = text.matches('\n').count();
                let mut m = String::new();
                let ng = ghosts.iter().filter(|g| !g.1.trim().is_empty()).count();
                write!(m, "{{\"name\":{},\"file\":{},\"path\":{},\"kind\":{},\"status\":{},\"reason\":{},\"start\":{},\"end\":{},\"lost\":{},\"loops_same\":{},\"edits\":{},\"ghosts\":{},\"flags\":[{}]}}",
                    js(&a.name), js(&a.file), js(&a.path), js(&a.kind), js(status), js(&reason), start, end, lost, loops_same, edits, ng,
                    a.flags.iter().map(|f| js(f)).collect::<Vec<_>>().join(",")).unwrap();
                map.push(m);
            }
        }
    }
    let mut rw = vec![];
    for r in &spec.rewrites {
        rw.push(js(&r.text));
    }
    for s in &spec.secs {
        if let Sec::Ann(a) = s {
            for r in &a.rewrites {
                rw.push(js(&format!("[{}] {}", a.name, r.text)));
            }
        }
    }
    Ok(Emitted { text, map: vec![format!("{{\"fns\":[\n{}],\n\"rewrites\":[{}]}}", map.join(",\n"), rw.join(","))] })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = run(&args);
    if let Err(e) = r {
        eprintln!("vx: {}", e);
        std::process::exit(2);
    }
}

fn run(args: &[String]) -> Result<(), String> {
    match args.get(1).map(|s| s.as_str()) {
        // vx show REPO SPEC FILE PATH
        Some("show") => {
            let mut spec = Spec::new();
            spec.load(Path::new(&args[3]))?;
            let mut repo = extract::Repo::new(Path::new(&args[2]));
            let mut rw = spec.rewrites.clone();
            for s in &spec.secs {
                if let Sec::Ann(a) = s {
                    if a.path == args[5] {
                        rw.extend(a.rewrites.clone());
                    }
                }
            }
            let e = repo.extract(&args[4], &args[5], &spec.cfg, &rw, false)?;
            println!("{}", toks::print(&e.toks));
            if !e.hoisted.is_empty() {
                println!("// hoisted: {}", e.hoisted.join(" "));
            }
            Ok(())
        }
        // vx emit REPO OUT MAP [--probe] [--external a,b] SPEC...
        Some("emit") => {
            let mut specs = vec![];
            let mut external = HashSet::new();
            let mut probe = false;
            let mut base = false;
            let mut i = 5;
            while i < args.len() {
                match args[i].as_str() {
                    "--probe" => probe = true,
                    "--base" => base = true,
                    "--external" => {
                        i += 1;
                        external.extend(args[i].split('|').filter(|s| !s.is_empty()).map(|s| s.to_string()));
                    }
                    s => specs.push(PathBuf::from(s)),
                }
                i += 1;
            }
            let e = emit(Path::new(&args[2]), &specs, &external, probe, base)?;
            std::fs::write(&args[3], e.text).map_err(|e| e.to_string())?;
            std::fs::write(&args[4], e.map.join("")).map_err(|e| e.to_string())?;
            Ok(())
        }
        _ => Err("usage: vx show|emit".into()),
    }
}
