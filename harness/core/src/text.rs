// C06, C07, C08: oracles over plain integers and strings.
use crate::common::*;
use fall_tree::{tu, Text, TextBuf, TextEdit, TextEditBuilder, TextEditOp, TextRange, TextSuffix, TextUnit};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn r(a: usize, b: usize) -> TextRange {
    TextRange::from_to(tu(a as u32), tu(b as u32))
}

fn val(k: u64) -> u32 {
    // small values and the ends of the domain
    match k {
        0..=5 => k as u32,
        6 => 1 << 31,
        7 => u32::MAX - 1,
        _ => u32::MAX,
    }
}

fn check_range_pair(a: u32, b: u32, c: u32, d: u32) -> Result<bool, String> {
    // construction
    if a > b {
        must_panic("from_to on an inverted range", || TextRange::from_to(tu(a), tu(b)))?;
        return Ok(true);
    }
    let x = TextRange::from_to(tu(a), tu(b));
    same!(x.start(), tu(a), "start");
    same!(x.end(), tu(b), "end");
    same!(x.len(), tu(b - a), "len");
    same!(x.is_empty(), a == b, "is_empty");
    let e = TextRange::empty();
    same!((e.is_empty(), e.start() <= e.end()), (true, true), "empty()");
    if let Some(s) = a.checked_add(b) {
        let y = TextRange::from_len(tu(a), tu(b));
        same!((y.start(), y.end()), (tu(a), tu(s)), "from_len");
    } else {
        must_panic("from_len past the end of the offsets", || TextRange::from_len(tu(a), tu(b)))?;
    }
    for &o in &[a, b, c, d] {
        same!(x.contains_offset_nonstrict(tu(o)), a <= o && o <= b, "contains_offset_nonstrict({})", o);
    }
    match (a.checked_add(c), b.checked_add(c)) {
        (Some(s), Some(t)) => {
            let y = x.shift_right(tu(c));
            same!((y.start(), y.end()), (tu(s), tu(t)), "shift_right({})", c);
        }
        _ => must_panic("shift_right past the end of the offsets", || x.shift_right(tu(c)))?,
    }
    if c > d {
        return Ok(true);
    }
    let y = TextRange::from_to(tu(c), tu(d));
    same!(x.is_subrange_of(y), c <= a && b <= d, "is_subrange_of {:?}", y);
    same!(y.is_subrange_of(x), a <= c && d <= b, "{:?} is_subrange_of", y);
    let disjoint = b <= c || d <= a;
    same!(x.disjoint(y), disjoint, "disjoint {:?}", y);
    same!(x.intersects(y), !disjoint, "intersects {:?}", y);
    same!(x == y, a == c && b == d, "== {:?}", y);
    let ord = if (a, b) == (c, d) {
        Some(Ordering::Equal)
    } else if b <= c {
        Some(Ordering::Less)
    } else if d <= a {
        Some(Ordering::Greater)
    } else {
        None
    };
    same!(x.partial_cmp(&y), ord, "partial_cmp {:?}", y);
    if b == c {
        let g = x.glue(y);
        same!((g.start(), g.end()), (tu(a), tu(d)), "glue {:?}", y);
    } else {
        must_panic("glue of ranges that do not touch", || x.glue(y))?;
    }
    Ok(true)
}

fn check_units(a: u32, b: u32) -> Result<bool, String> {
    same!(u32::from(tu(a)), a, "u32::from");
    same!(tu(a).utf8_len(), a as usize, "utf8_len");
    same!(tu(a).cmp(&tu(b)), a.cmp(&b), "cmp");
    same!(tu(a) == tu(b), a == b, "eq");
    match a.checked_add(b) {
        Some(s) => {
            same!(tu(a) + tu(b), tu(s), "+");
            same!(tu(a) + b, tu(s), "+ u32");
            let mut t = tu(a);
            t += tu(b);
            same!(t, tu(s), "+=");
        }
        None => {
            must_panic("+ overflow", || tu(a) + tu(b))?;
            must_panic("+ u32 overflow", || tu(a) + b)?;
            must_panic("+= overflow", || {
                let mut t = tu(a);
                t += tu(b);
                t
            })?;
        }
    }
    match a.checked_sub(b) {
        Some(s) => {
            same!(tu(a) - tu(b), tu(s), "-");
            same!(tu(a) - b, tu(s), "- u32");
            let mut t = tu(a);
            t -= tu(b);
            same!(t, tu(s), "-=");
        }
        None => {
            must_panic("- underflow", || tu(a) - tu(b))?;
            must_panic("- u32 underflow", || tu(a) - b)?;
            must_panic("-= underflow", || {
                let mut t = tu(a);
                t -= tu(b);
                t
            })?;
        }
    }
    Ok(true)
}

pub fn c07() -> Vec<Phase> {
    vec![
        phase("units", 81, |i, _| {
            let (a, b) = (val(i % 9), val(i / 9));
            Some(case(format!("a={} b={}", a, b), move || check_units(a, b)))
        }),
        phase("pairs", 9 * 9 * 9 * 9, |i, _| {
            let (a, b, c, d) = (val(i % 9), val(i / 9 % 9), val(i / 81 % 9), val(i / 729));
            Some(case(format!("[{},{}) with [{},{})", a, b, c, d), move || check_range_pair(a, b, c, d)))
        }),
        phase("random", INF, |_, g| {
            let mut v = || if g.chance(1, 2) { g.next() as u32 } else { g.below(64) as u32 };
            let (a, b, c, d) = (v(), v(), v(), v());
            Some(case(format!("[{},{}) with [{},{})", a, b, c, d), move || {
                check_units(a, b)?;
                check_range_pair(a, b, c, d)
            }))
        }),
    ]
}

pub const PIECES: &[&str] = &["a", "b", "ab", "ba", " ", "\n", "\t", "é", "漢", "😀", "\u{a0}", "\u{2003}", "aa", "x", "", "\r\n"];

pub fn gen_string(g: &mut Rng, max: usize) -> String {
    let n = g.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(g.pick::<&str>(PIECES));
    }
    s
}

pub fn boundaries(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect()
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn check_slice(t: Text, s: &str, needles: &[String]) -> Check {
    same!(t.len().utf8_len(), s.len(), "len");
    same!(t.is_empty(), s.is_empty(), "is_empty");
    same!(t.to_string(), s, "to_string");
    same!(&*t.to_cow(), s, "to_cow");
    same!(t.chars().collect::<String>(), s, "chars");
    same!(t.to_text_buf().as_text().to_string(), s, "to_text_buf");
    same!(t == s, true, "== own string");
    same!(s == t, true, "own string ==");
    same!(format!("{}", t), s, "Display");
    same!(t.trim().to_string(), s.trim(), "trim");
    let tb = TextBuf::from(t);
    same!(tb == *s, true, "TextBuf == own string");
    for n in needles {
        same!(t.starts_with(n), s.starts_with(n.as_str()), "starts_with {:?}", n);
        same!(t.ends_with(n), s.ends_with(n.as_str()), "ends_with {:?}", n);
        same!(t.contains(n), s.contains(n.as_str()), "contains {:?}", n);
        same!(t.find(n), s.find(n.as_str()).map(|x| tu(x as u32)), "find {:?}", n);
        same!(t.rfind(n), s.rfind(n.as_str()).map(|x| tu(x as u32)), "rfind {:?}", n);
        let n = n.as_str();
        same!(t == n, s == n, "== {:?}", n);
        same!(n == t, s == n, "{:?} ==", n);
        same!(t.partial_cmp(&n), s.partial_cmp(n), "partial_cmp {:?}", n);
        same!(TextBuf::from(t) == n, s == n, "TextBuf == {:?}", n);
        same!(n == TextBuf::from(t), s == n, "{:?} == TextBuf", n);
        let o = TextBuf::from(n);
        same!(t == o.as_text(), s == n, "== text {:?}", n);
        same!(t.partial_cmp(&o.as_text()), s.partial_cmp(n), "partial_cmp text {:?}", n);
        same!(t.cmp(&o.as_text()), s.cmp(n), "cmp text {:?}", n);
        if s == n {
            same!(hash_of(&t), hash_of(&o.as_text()), "hash of equal texts");
        }
    }
    Ok(())
}


fn check_texts(s: String, cuts: Vec<(usize, usize, bool)>, needles: Vec<String>) -> Result<bool, String> {
    let buf: TextBuf = if s.len() % 2 == 0 { s.clone().into() } else { s.as_str().into() };
    let mut t = buf.as_text();
    let mut cur: &str = &s;
    check_slice(t, cur, &needles)?;
    for (x, y, suffix) in cuts {
        let bs = boundaries(cur);
        let (i, j) = (bs[x % bs.len()], bs[y % bs.len()]);
        // outside
        let n = cur.len();
        must_panic("slice that ends past the text", || t.slice(r(i, n + 1)))?;
        must_panic("slice past the text", || t.slice(r(n + 1, n + 1)))?;
        must_panic("slice past the text", || t.slice(r(n + 1, n + 3)))?;
        must_panic("suffix past the text", || t.slice(TextSuffix::from(tu(n as u32 + 1))))?;
        if suffix {
            t = t.slice(TextSuffix::from(tu(i as u32)));
            cur = &cur[i..];
        } else {
            let (i, j) = if i <= j { (i, j) } else { (j, i) };
            t = t.slice(r(i, j));
            cur = &cur[i..j];
        }
        check_slice(t, cur, &needles)?;
    }
    Ok(s.len() > 1)
}

fn all_strings(i: u64, alphabet: &[&str], max: u32) -> String {
    // the i-th string over the alphabet, by length
    let k = alphabet.len() as u64;
    let mut i = i;
    let mut len = 0;
    while len < max && i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alphabet[(i % k) as usize]);
        i /= k;
    }
    s
}

fn count_strings(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

pub fn c08() -> Vec<Phase> {
    vec![
        phase("short", count_strings(4, 4), |i, g| {
            let s = all_strings(i, &["a", "é", " ", "b"], 4);
            let cuts: Vec<_> = (0..3).map(|_| (g.below(9), g.below(9), g.chance(1, 3))).collect();
            let mut needles: Vec<String> = (0..count_strings(4, 2)).map(|k| all_strings(k, &["a", "é", " ", "b"], 2)).collect();
            needles.push(s.clone());
            Some(case(format!("{:?} cuts {:?}", s, cuts), move || check_texts(s, cuts, needles)))
        }),
        phase("random", INF, |_, g| {
            let s = gen_string(g, 12);
            let cuts: Vec<_> = (0..g.below(4)).map(|_| (g.below(40), g.below(40), g.chance(1, 3))).collect();
            let mut needles: Vec<String> = (0..4).map(|_| gen_string(g, 2)).collect();
            let bs = boundaries(&s);
            for _ in 0..3 {
                let (i, j) = (*g.pick(&bs), *g.pick(&bs));
                needles.push(s[i.min(j)..i.max(j)].to_string());
            }
            Some(case(format!("{:?} cuts {:?} needles {:?}", s, cuts, needles), move || check_texts(s, cuts, needles)))
        }),
    ]
}

#[derive(Debug, Clone)]
pub enum EOp {
    Copy(usize, usize),
    Ins(String),
}

pub fn to_edit(ops: &[EOp]) -> TextEdit {
    TextEdit {
        ops: ops
            .iter()
            .map(|o| match o {
                EOp::Copy(a, b) => TextEditOp::Copy(r(*a, *b)),
                EOp::Ins(s) => TextEditOp::Insert(s.as_str().into()),
            })
            .collect(),
    }
}

pub fn apply_model(s: &str, ops: &[EOp]) -> String {
    let mut out = String::new();
    for o in ops {
        match o {
            EOp::Copy(a, b) => out.push_str(&s[*a..*b]),
            EOp::Ins(i) => out.push_str(i),
        }
    }
    out
}

#[derive(Debug, Clone)]
pub enum BOp {
    Insert(usize, String),
    Delete(usize, usize),
    Replace(usize, usize, String),
}

fn check_builder(s: String, ops: Vec<BOp>) -> Result<bool, String> {
    // model: pieces of the old text and inserted strings
    let mut out = String::new();
    let mut at = 0;
    let mut bad = false;
    let mut past = false;
    for o in &ops {
        let (start, end, ins) = match o {
            BOp::Insert(p, t) => (*p, *p, t.as_str()),
            BOp::Delete(a, b) => (*a, *b, ""),
            BOp::Replace(a, b, t) => (*a, *b, t.as_str()),
        };
        if start < at {
            bad = true;
            break;
        }
        if end > s.len() {
            past = true;
        }
        if !past {
            out.push_str(&s[at..start]);
            out.push_str(ins);
        }
        at = end;
    }
    let buf: TextBuf = s.as_str().into();
    let go = || {
        let mut e = TextEditBuilder::new(buf.as_text());
        for o in &ops {
            match o {
                BOp::Insert(p, t) => e.insert(tu(*p as u32), t.as_str()),
                BOp::Delete(a, b) => e.delete(r(*a, *b)),
                BOp::Replace(a, b, t) => e.replace(r(*a, *b), t.as_str()),
            }
        }
        e.build()
    };
    if bad {
        must_panic("an operation that goes back", go)?;
        return Ok(true);
    }
    if past {
        must_panic("an edit past the end of the text", go)?;
        return Ok(true);
    }
    out.push_str(&s[at..]);
    let edit = go();
    let got = edit.apply(buf.as_text());
    same!(got.as_text().to_string(), out, "applied edit");
    // everything not named is copied exactly once, in place
    let mut last = 0;
    for op in edit.ops.iter() {
        if let TextEditOp::Copy(c) = op {
            let (a, b) = (c.start().utf8_len(), c.end().utf8_len());
            if a < last || b < a || b > s.len() {
                return Err(format!("copied ranges out of order or overlapping: {:?}", edit.ops));
            }
            last = b;
        }
    }
    Ok(!ops.is_empty())
}

fn check_apply(s: String, ops: Vec<EOp>) -> Result<bool, String> {
    let buf: TextBuf = s.as_str().into();
    let got = to_edit(&ops).apply(buf.as_text());
    same!(got.as_text().to_string(), apply_model(&s, &ops), "applied edit");
    // the same edit on a slice of a bigger text
    let big: TextBuf = format!("<{}é>", s).into();
    let sl = big.as_text().slice(r(1, 1 + s.len()));
    let got = to_edit(&ops).apply(sl);
    same!(got.as_text().to_string(), apply_model(&s, &ops), "edit applied to a slice");
    Ok(ops.len() > 1)
}

pub fn c06() -> Vec<Phase> {
    vec![
        phase("builder-pairs", 6 * 6 * 6 * 6 * 9, |i, _| {
            let s = "abcd".to_string();
            let n = |k: u64| (i / 6u64.pow(k as u32) % 6) as usize;
            let kinds = i / 6u64.pow(4);
            let mk = |kind: u64, a: usize, b: usize, t: &str| match kind {
                0 => Some(BOp::Insert(a, t.into())),
                1 if a <= b => Some(BOp::Delete(a, b)),
                2 if a <= b => Some(BOp::Replace(a, b, t.into())),
                _ => None,
            };
            let ops = vec![mk(kinds % 3, n(0), n(1), "X")?, mk(kinds / 3, n(2), n(3), "YY")?];
            Some(case(format!("{:?} {:?}", s, ops), move || check_builder(s, ops)))
        }),
        phase("builder", INF, |_, g| {
            let s = gen_string(g, 10);
            let bs = boundaries(&s);
            let mut ops = vec![];
            let mut k = 0;
            for _ in 0..g.below(6) {
                // mostly in order
                let lo = if g.chance(1, 12) { 0 } else { k };
                let x = g.range(lo, bs.len() - 1);
                let y = g.range(x, (x + 3).min(bs.len() - 1));
                let t = gen_string(g, 2);
                match g.below(3) {
                    0 => {
                        ops.push(BOp::Insert(bs[x], t));
                        k = x;
                    }
                    1 => {
                        ops.push(BOp::Delete(bs[x], bs[y]));
                        k = y;
                    }
                    _ => {
                        ops.push(BOp::Replace(bs[x], bs[y], t));
                        k = y;
                    }
                }
            }
            if g.chance(1, 30) {
                ops.push(BOp::Delete(s.len(), s.len() + 1));
            }
            Some(case(format!("{:?} {:?}", s, ops), move || check_builder(s, ops)))
        }),
        phase("apply", INF, |_, g| {
            let s = gen_string(g, 10);
            let ops = gen_ops(g, &s);
            Some(case(format!("{:?} {:?}", s, ops), move || check_apply(s, ops)))
        }),
    ]
}

/// an arbitrary edit: copies may overlap, repeat and go back
pub fn gen_ops(g: &mut Rng, s: &str) -> Vec<EOp> {
    let bs = boundaries(s);
    (0..g.below(6))
        .map(|_| {
            if g.chance(2, 5) {
                EOp::Ins(gen_string(g, 3))
            } else {
                let (i, j) = (*g.pick(&bs), *g.pick(&bs));
                EOp::Copy(i.min(j), i.max(j))
            }
        })
        .collect()
}

pub fn unit(t: TextUnit) -> usize {
    t.utf8_len()
}
