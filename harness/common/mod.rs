// Shared by the harness crates: cases, seeded generation, failure reports.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        let mut h = DefaultHasher::new();
        (a, b, c).hash(&mut h);
        let mut r = Rng(h.finish() | 1);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0 <= r < n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// a <= r <= b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub type Check = Result<(), String>;

pub struct Case {
    /// full description of the input, printed in replays
    pub desc: String,
    /// Ok(true): checked and non-trivial; Ok(false): checked, trivial, or the input is out of scope
    pub run: Box<dyn FnOnce() -> Result<bool, String>>,
}

pub fn case<F: FnOnce() -> Result<bool, String> + 'static>(desc: String, run: F) -> Case {
    Case { desc, run: Box::new(run) }
}

pub struct Phase {
    pub name: &'static str,
    /// number of cases; u64::MAX for an unbounded random phase
    pub count: u64,
    pub make: Box<dyn Fn(u64, &mut Rng) -> Option<Case>>,
}

pub fn phase<F: Fn(u64, &mut Rng) -> Option<Case> + 'static>(name: &'static str, count: u64, make: F) -> Phase {
    Phase { name, count, make: Box::new(make) }
}

pub const INF: u64 = u64::MAX;

/// The call must panic (a rejected input).
pub fn must_panic<R, F: FnOnce() -> R>(what: &str, f: F) -> Check {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(_) => Err(format!("{}: accepted, should have been rejected", what)),
        Err(_) => Ok(()),
    }
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($what:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($what)*), a, b));
        }
    }};
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// a case that takes longer is a failure
#[allow(dead_code)]
pub static CASE_SECS: AtomicU64 = AtomicU64::new(20);

/// usage: BIN PROP SECONDS SEED CASEFILE [--only PHASE:I]
/// Prints `RESULT {json}` and, for a failing case, `FAIL {json}`; exits 0 in both cases.
pub fn main_with(phases_of: fn(&str) -> Option<Vec<Phase>>) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let secs: f64 = args[2].parse().unwrap();
    let seed: u64 = args[3].parse().unwrap();
    let casefile = args[4].clone();
    let only: Option<(String, u64)> = args.iter().position(|a| a == "--only").map(|k| {
        let mut it = args[k + 1].rsplitn(2, ':');
        let i = it.next().unwrap().parse().unwrap();
        (it.next().unwrap().to_string(), i)
    });
    std::panic::set_hook(Box::new(|_| {}));
    let current: Arc<Mutex<(Option<Instant>, String, String)>> = Arc::new(Mutex::new((None, String::new(), String::new())));
    let tick = Arc::new(AtomicU64::new(0));
    {
        // watchdog: a case that does not come back is a failure
        let current = current.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = current.lock().unwrap();
            if let Some(t) = c.0 {
                if t.elapsed() > Duration::from_secs(CASE_SECS.load(Ordering::Relaxed)) {
                    println!("FAIL {{\"case\":{},\"input\":{},\"what\":\"does not return within {} s\"}}", esc(&c.1), esc(&c.2), CASE_SECS.load(Ordering::Relaxed));
                    std::process::exit(0);
                }
            }
        });
    }
    let worker = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        let phases = match phases_of(&prop) {
            Some(p) => p,
            None => {
                println!("RESULT {{\"evaluations\":0,\"distinct_nontrivial\":0,\"samples\":[],\"phases\":{{}}}}");
                return;
            }
        };
        let start = Instant::now();
        let budget = Duration::from_secs_f64(secs);
        let mut evals = 0u64;
        let mut seen: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut per: Vec<(String, u64, bool)> = vec![];
        let n_inf = phases.iter().filter(|p| p.count == INF).count().max(1);
        let mut inf_done = 0;
        let mut cf = std::fs::OpenOptions::new().create(true).write(true).open(&casefile).unwrap();
        for (pk, p) in phases.iter().enumerate() {
            let deadline = if p.count == INF {
                // the remaining time is shared by the unbounded phases
                let left = budget.checked_sub(start.elapsed()).unwrap_or_default();
                let share = left / (n_inf - inf_done) as u32;
                inf_done += 1;
                start.elapsed() + share.max(Duration::from_millis(300))
            } else {
                budget * 4 / 5
            };
            let mut i = 0;
            let mut n = 0;
            while i < p.count {
                if let Some((ph, k)) = &only {
                    if ph != p.name {
                        break;
                    }
                    i = *k;
                }
                if only.is_none() && start.elapsed() > deadline && n > 0 {
                    break;
                }
                let mut rng = Rng::new(seed, pk as u64, i);
                let id = format!("{}:{}", p.name, i);
                if let Some(c) = (p.make)(i, &mut rng) {
                    {
                        use std::io::Seek;
                        let _ = cf.seek(std::io::SeekFrom::Start(0));
                        let _ = cf.write_all(format!("{}\n", id).as_bytes());
                        let mut cur = current.lock().unwrap();
                        *cur = (Some(Instant::now()), id.clone(), c.desc.clone());
                    }
                    let desc = c.desc;
                    let run = c.run;
                    let r = match catch_unwind(AssertUnwindSafe(run)) {
                        Ok(r) => r,
                        Err(e) => Err(format!("panics: {}", panic_text(e))),
                    };
                    current.lock().unwrap().0 = None;
                    evals += 1;
                    n += 1;
                    tick.fetch_add(1, Ordering::Relaxed);
                    match r {
                        Ok(nontrivial) => {
                            if nontrivial {
                                let mut h = DefaultHasher::new();
                                desc.hash(&mut h);
                                if seen.len() < 2_000_000 && seen.insert(h.finish()) && samples.len() < 6 && (n % 17 == 3 || only.is_some()) {
                                    samples.push(format!("{} {}", id, desc));
                                }
                            }
                        }
                        Err(what) => {
                            println!("FAIL {{\"case\":{},\"input\":{},\"what\":{}}}", esc(&id), esc(&desc), esc(&what));
                            std::process::exit(0);
                        }
                    }
                }
                i += 1;
                if only.is_some() {
                    break;
                }
            }
            per.push((p.name.to_string(), n, p.count != INF && i >= p.count));
        }
        println!(
            "RESULT {{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"phases\":{{{}}}}}",
            evals,
            seen.len(),
            samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            per.iter().map(|(n, k, e)| format!("{}:{}", esc(n), esc(&format!("{} cases{}", k, if *e { ", exhaustive" } else { "" })))).collect::<Vec<_>>().join(",")
        );
    });
    worker.unwrap().join().unwrap();
}
