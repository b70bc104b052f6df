// C17, C18: the two source files of lang/rust are compiled in place (they are private modules there).
extern crate serde;
#[macro_use]
extern crate serde_derive;
extern crate fst;
extern crate ordslice;
extern crate fall_tree;

#[path = "../../common/mod.rs"]
#[macro_use]
mod common;
#[allow(dead_code)]
#[path = "/repo/lang/rust/src/editor/line_index.rs"]
mod line_index;
#[allow(dead_code)]
#[path = "/repo/lang/rust/src/editor/fst_subseq.rs"]
mod fst_subseq;

use common::*;
use fall_tree::{tu, TextBuf};
use fst::{Automaton, IntoStreamer};

fn check_lines(text: String) -> Result<bool, String> {
    // the text on its own and as a slice of a longer one
    let buf = TextBuf::from(text.clone());
    let longer = TextBuf::from(format!("\né{}\nx", text));
    let n = text.len() as u32;
    let slice = longer.as_text().slice(fall_tree::TextRange::from_len(tu(3), tu(n)));
    for (what, t) in vec![("text", buf.as_text()), ("slice", slice)] {
        let index = line_index::LineIndex::new(t);
        for off in (0..=n + 2).chain(vec![u32::max_value()]) {
            let upto = &text.as_bytes()[..(off.min(n)) as usize];
            let line = upto.iter().filter(|b| **b == b'\n').count() as u32;
            let start = upto.iter().rposition(|b| *b == b'\n').map(|i| i as u32 + 1).unwrap_or(0);
            let lc = index.translate(tu(off));
            same!((lc.line, lc.col), (line, off - start), "line and column of offset {} in the {}", off, what);
        }
    }
    Ok(text.contains('\n'))
}

const PIECES: &[&str] = &["\n", "\n", "a", "bc", "é", "漢", "😀", "\r\n", "\t", " ", "\u{85}", "\u{2028}", "\u{b}", "\n\n", "\u{a0a}", "\u{10a}", "\r", "\u{c}"];

fn c17() -> Vec<Phase> {
    const SMALL: &[&str] = &["\n", "a", "é", "\r"];
    vec![
        phase("small", 1 + 4 + 16 + 64 + 256 + 1024, |i, _| {
            let (mut i, mut len, mut total) = (i as usize, 0, 1);
            while i >= total {
                i -= total;
                len += 1;
                total *= 4;
            }
            let mut text = String::new();
            for _ in 0..len {
                text.push_str(SMALL[i % 4]);
                i /= 4;
            }
            Some(case(format!("{:?}", text), move || check_lines(text)))
        }),
        phase("random", INF, |_, g| {
            let text: String = (0..g.below(40)).map(|_| *g.pick::<&str>(PIECES)).collect();
            Some(case(format!("{:?}", text), move || check_lines(text)))
        }),
        phase("long", INF, |_, g| {
            let long = *g.pick(&[200usize, 255, 256, 257, 300, 700]);
            let mut text = String::new();
            for _ in 0..g.range(1, 3) {
                let k = g.below(long);
                text.push_str(&g.pick::<&str>(&["\n", "a", "é\n", "x\n"]).repeat(k + 1));
            }
            Some(case(format!("{:?}", text), move || check_lines(text)))
        }),
    ]
}

fn is_subseq(q: &[u8], s: &[u8]) -> bool {
    let mut k = 0;
    for b in s {
        if k < q.len() && q[k] == *b {
            k += 1;
        }
    }
    k == q.len()
}

fn check_matcher(query: String, names: Vec<String>) -> Result<bool, String> {
    let a = fst_subseq::FstSubSeq::new(&query);
    let q = query.as_bytes();
    let mut hits = false;
    for name in &names {
        let mut st = a.start();
        let mut always = false;
        let s = name.as_bytes();
        for n in 0..=s.len() {
            let want = is_subseq(q, &s[..n]);
            same!(a.is_match(&st), want, "query {:?} matches {:?}", query, &s[..n]);
            if always && !want {
                return Err(format!("query {:?}: said to match always before the end of {:?}, and does not", query, &s[..n]));
            }
            always = always || a.will_always_match(&st);
            if !a.can_match(&st) {
                return Err(format!("query {:?}: said never to match {:?} continued, but {:?} does", query, &s[..n], [&s[..n], q].concat()));
            }
            if n < s.len() {
                st = a.accept(&st, s[n]);
            }
        }
        if always {
            // every extension
            for e in 0..=255u8 {
                if !a.is_match(&a.accept(&st, e)) {
                    return Err(format!("query {:?}: said to match every extension of {:?}, but not with byte {}", query, name, e));
                }
            }
        }
        hits = hits || is_subseq(q, s);
    }
    // through the search itself
    let mut sorted = names.clone();
    sorted.sort();
    sorted.dedup();
    let map = fst::Map::from_iter(sorted.iter().zip(0u64..)).map_err(|e| e.to_string())?;
    let got: Vec<u64> = map.search(a).into_stream().into_values();
    let want: Vec<u64> = sorted.iter().zip(0u64..).filter(|(s, _)| is_subseq(q, s.as_bytes())).map(|(_, i)| i).collect();
    same!(got, want, "search for {:?} in {:?}", query, sorted);
    Ok(hits && !query.is_empty())
}

fn c18() -> Vec<Phase> {
    fn word(g: &mut Rng, alphabet: &[&str], max: usize) -> String {
        (0..g.below(max + 1)).map(|_| *g.pick::<&str>(alphabet)).collect()
    }
    const FEW: &[&str] = &["a", "b"];
    const MANY: &[&str] = &["a", "b", "c", "_", "é", "è", "漢", "😀", "α", "\u{7f}", "\u{80}", "x1", "A", "\0"];
    fn one(g: &mut Rng, alphabet: &'static [&'static str], qmax: usize, nmax: usize) -> Option<Case> {
        let query = word(g, alphabet, qmax);
        let mut names: Vec<String> = (0..g.range(1, 6)).map(|_| word(g, alphabet, nmax)).collect();
        // names made from the query
        for _ in 0..3 {
            let mut s = String::new();
            for c in query.chars() {
                while g.chance(1, 3) {
                    s.push_str(g.pick::<&str>(alphabet));
                }
                if !g.chance(1, 12) {
                    s.push(c);
                }
            }
            s.push_str(&word(g, alphabet, 2));
            names.push(s);
        }
        names.push(String::new());
        Some(case(format!("query {:?} names {:?}", query, names), move || check_matcher(query, names)))
    }
    vec![
        phase("small", INF, |_, g| one(g, FEW, 4, 7)),
        phase("random", INF, |_, g| one(g, MANY, 6, 12)),
        phase("long", INF, |_, g| { let n = *g.pick(&[20usize, 130, 300]); one(g, MANY, n, 20) }),
    ]
}

fn main() {
    common::main_with(|p| {
        Some(match p {
            "C17" => c17(),
            "C18" => c18(),
            _ => return None,
        })
    })
}
