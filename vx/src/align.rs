//! Puts the ghost segments of an annotated copy into the current code.
use crate::toks::Tok;
use std::collections::BTreeMap;

pub struct Placed {
    /// (gap in current, ghost text)
    pub ghosts: Vec<(usize, String)>,
    pub lost: usize,
    pub loops_same: bool,
    pub edits: usize,
}

fn loop_heads(t: &[Tok]) -> Vec<String> {
    let mut out = vec![];
    for x in t {
        if x.s == "while" || x.s == "loop" || x.s == "for" {
            out.push(x.s.clone());
        }
    }
    out
}

pub fn place(base: &[Tok], ghosts: &[(usize, String)], cur: &[Tok]) -> Placed {
    if base == cur {
        return Placed { ghosts: ghosts.to_vec(), lost: 0, loops_same: true, edits: 0 };
    }
    let (n, m) = (base.len(), cur.len());
    // alignment costs: match 0, ident/ident substitution 3, other substitution 5, gap 2
    let w = m + 1;
    let mut c = vec![0u32; (n + 1) * w];
    for i in 0..=n {
        for j in 0..=m {
            if i == 0 && j == 0 {
                continue;
            }
            let mut best = u32::MAX;
            if i > 0 {
                best = best.min(c[(i - 1) * w + j] + 2);
            }
            if j > 0 {
                best = best.min(c[i * w + j - 1] + 2);
            }
            if i > 0 && j > 0 {
                let s = if base[i - 1] == cur[j - 1] { 0 } else if base[i - 1].is_ident() && cur[j - 1].is_ident() { 3 } else { 5 };
                best = best.min(c[(i - 1) * w + j - 1] + s);
            }
            c[i * w + j] = best;
        }
    }
    let mut img: Vec<Option<usize>> = vec![None; n];
    let mut subst: Vec<(usize, usize)> = vec![];
    let (mut i, mut j) = (n, m);
    let mut edits = 0;
    while i > 0 || j > 0 {
        if i > 0 && j > 0 {
            let same = base[i - 1] == cur[j - 1];
            let s = if same { 0 } else if base[i - 1].is_ident() && cur[j - 1].is_ident() { 3 } else { 5 };
            if c[i * w + j] == c[(i - 1) * w + j - 1] + s {
                if s < 5 {
                    img[i - 1] = Some(j - 1);
                }
                if s == 3 {
                    subst.push((i - 1, j - 1));
                }
                if s > 0 {
                    edits += 1;
                }
                i -= 1;
                j -= 1;
                continue;
            }
        }
        edits += 1;
        if i > 0 && c[i * w + j] == c[(i - 1) * w + j] + 2 {
            i -= 1;
        } else {
            j -= 1;
        }
    }
    // consistent renames
    let mut ren: BTreeMap<String, Option<String>> = BTreeMap::new();
    for &(a, b) in &subst {
        let e = ren.entry(base[a].s.clone()).or_insert_with(|| Some(cur[b].s.clone()));
        if e.as_deref() != Some(cur[b].s.as_str()) {
            *e = None;
        }
    }
    let cur_has = |s: &str| cur.iter().any(|t| t.s == s);
    let base_has = |s: &str| base.iter().any(|t| t.s == s);
    let ren: BTreeMap<String, String> = ren
        .into_iter()
        .filter_map(|(k, v)| v.map(|v| (k, v)))
        .filter(|(k, v)| !cur_has(k) && !base_has(v))
        .collect();
    let mut out = vec![];
    let mut lost = 0;
    let mut last_gap = 0;
    for (gap, text) in ghosts {
        let left = if *gap > 0 { img[*gap - 1] } else { None };
        let right = if *gap < n { img[*gap] } else { None };
        let t = text.trim_start();
        let clause = ["invariant", "decreases", "requires", "ensures", "invariant_except_break"].iter().any(|k| t.starts_with(k));
        let stmt_ok = |g: usize| g == 0 || matches!(cur[g - 1].s.as_str(), ";" | "{" | "}");
        let pos = if clause {
            // must sit right before a `{`
            match right {
                Some(r) if cur[r].s == "{" => Some(r),
                _ => match left {
                    Some(l) if l + 1 < m && cur[l + 1].s == "{" => Some(l + 1),
                    _ => None,
                },
            }
        } else {
            match (left, right) {
                (Some(l), Some(r)) if l + 1 == r => Some(r),
                (_, Some(r)) if stmt_ok(r) => Some(r),
                (Some(l), _) if stmt_ok(l + 1) => Some(l + 1),
                (Some(l), None) => Some(l + 1),
                (_, Some(r)) => Some(r),
                _ => {
                    // nearest mapped token to the left that ends a statement
                    let mut k = *gap;
                    let mut f = None;
                    while k > 0 {
                        k -= 1;
                        if let Some(l) = img[k] {
                            if stmt_ok(l + 1) {
                                f = Some(l + 1);
                                break;
                            }
                        }
                    }
                    f
                }
            }
        };
        match pos {
            Some(p) if p >= last_gap => {
                last_gap = p;
                out.push((p, rename(text, &ren)));
            }
            _ => lost += 1,
        }
    }
    Placed { ghosts: out, lost, loops_same: loop_heads(base) == loop_heads(cur), edits }
}

fn rename(text: &str, ren: &BTreeMap<String, String>) -> String {
    if ren.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut word = String::new();
    for ch in text.chars().chain(std::iter::once('\0')) {
        if ch.is_alphanumeric() || ch == '_' {
            word.push(ch);
        } else {
            if !word.is_empty() {
                out.push_str(ren.get(&word).map(|s| s.as_str()).unwrap_or(&word));
                word.clear();
            }
            if ch != '\0' {
                out.push(ch);
            }
        }
    }
    out
}
