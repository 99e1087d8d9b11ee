//! Shared driver of the witness engines: deterministic cases (seed, index), replayable one by one.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub struct Rng(u64);
#[allow(dead_code)]
impl Rng {
    pub fn new(seed: u64, idx: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234_5678_9abc_def1);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// contents, sometimes the same byte or the same few bytes again and again
    pub fn content(&mut self, n: usize) -> Vec<u8> {
        match self.us(10) {
            0 => vec![*self.pick(&[0u8, 1, 2, 0xFE, 0xFF, b'M', 5]); n],
            1 => { let p = 1 + self.us(40); let b = self.bytes(p); (0..n).map(|i| b[i % p]).collect() }
            _ => self.bytes(n),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.us(i + 1);
            xs.swap(i, j);
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    /// grows with the case index: cases start small
    pub size: usize,
    pub idx: u64,
    pub dir: PathBuf,
    /// description of the input of this case
    pub desc: String,
    /// set by a case that exercised the property (not a degenerate input)
    pub nontrivial: bool,
}

pub type Case = fn(&mut Ctx) -> Result<(), String>;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}

#[allow(dead_code)]
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".to_string())
    })
}

/// Runs `f` on another thread; None if it does not finish in time (deadlock, non-termination).
#[allow(dead_code)]
pub fn with_timeout<T: Send + 'static>(d: Duration, f: impl FnOnce() -> T + Send + 'static) -> Option<Result<T, String>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = panics(f);
        let _ = tx.send(r);
    });
    rx.recv_timeout(d).ok()
}

pub fn main_with(table: &[(&str, &str, Case)]) {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed) = (a[1].as_str(), a[2].parse::<u64>().unwrap());
    let (secs, only, dir) = if a[3] == "case" {
        (0, Some(a[4].parse::<u64>().unwrap()), PathBuf::from(&a[5]))
    } else {
        (a[3].parse::<u64>().unwrap(), None, PathBuf::from(&a[4]))
    };
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Vec<_> = table.iter().filter(|t| t.0 == prop).collect();
    assert!(!cases.is_empty(), "no such property");
    let start = Instant::now();
    let mut idx = only.unwrap_or(0);
    let mut seen = HashSet::new();
    let (mut n, mut nontrivial) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut failure = None;
    loop {
        let case = cases[(idx % cases.len() as u64) as usize];
        let round = idx / cases.len() as u64;
        let mut ctx = Ctx {
            prop: prop.to_string(),
            rng: Rng::new(seed, idx),
            size: 1 + (round as usize).min(400),
            idx,
            dir: dir.clone(),
            desc: String::new(),
            nontrivial: false,
        };
        let r = catch_unwind(AssertUnwindSafe(|| (case.2)(&mut ctx)));
        n += 1;
        let desc = cut(&ctx.desc, 400);
        let what = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(e) => Some(format!(
                "panic: {}",
                e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            )),
        };
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        ctx.desc.hash(&mut h);
        if ctx.nontrivial && seen.insert(h.finish()) {
            nontrivial += 1;
        }
        if samples.len() < 3 && ctx.nontrivial && (round % 7 == 3 || round > 10) {
            samples.push(desc.clone());
        }
        if let Some(w) = what {
            failure = Some((idx, cut(&w, 1500), desc));
            break;
        }
        idx += 1;
        if only.is_some() || start.elapsed() > Duration::from_secs(secs) {
            break;
        }
    }
    let rules: Vec<&str> = cases.iter().map(|c| c.1).collect();
    let f = match failure {
        None => "null".to_string(),
        Some((i, w, d)) => format!("{{\"case\":{},\"seed\":{},\"what\":{},\"input\":{}}}", i, seed, esc(&w), esc(&d)),
    };
    println!(
        "RESULT {{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"failure\":{}}}",
        n,
        nontrivial,
        esc(&rules.join("; ")),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        f
    );
    use std::io::Write;
    let _ = std::io::stdout().flush();
    // threads of a deadlocked case may still be around
    std::process::exit(0);
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
