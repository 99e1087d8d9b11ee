//! Random properly nested traces, written as real profile files, and independent oracles over them.
#![allow(dead_code)]
use crate::common::*;
use crate::mk::*;
use std::collections::{BTreeMap, HashMap};

pub const KINDS: &[&str] = &["Query", "GenericActivity", "IncrementalLoadResult", "IncrementalResultHashing", "QueryBlocked", "QueryCacheHit", "ArtifactSize", "Other", "query", "", "artifactsize", "ArtifactSize ", "QUERYCACHEHIT", "Query ", "QueryBlocked2", "GenericActivit", "IncrementalLoad", "IncrementalResult"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P { Iv(u64, u64), At(u64), Int(u64) }
#[derive(Clone, Debug, PartialEq)]
pub struct T { pub kind: String, pub label: String, pub args: Vec<String>, pub tid: u32, pub p: P }
impl T {
    pub fn iv(&self) -> Option<(u64, u64)> { match self.p { P::Iv(a, b) => Some((a, b)), _ => None } }
    pub fn dur(&self) -> u64 { match self.p { P::Iv(a, b) => b - a, _ => 0 } }
}

pub struct Opts { pub threads: usize, pub events: usize, pub max_time: u64, pub labels: Vec<String>, pub instants: bool, pub ints: bool, pub kinds: usize, pub args: bool, pub big: bool }

fn kind(c: &mut Ctx, o: &Opts) -> String { c.rng.pick(&KINDS[..o.kinds]).to_string() }

fn leaf(c: &mut Ctx, o: &Opts, tid: u32, p: P) -> T {
    let args = if o.args { (0..c.rng.us(3)).map(|i| if c.rng.chance(1, 5) { c.rng.pick(&["same", " x ", " ", "y ", "\t"]).to_string() } else { format!("arg{}", i * 7 + c.rng.us(3)) }).collect() } else { vec![] };
    T { kind: kind(c, o), label: c.rng.pick(&o.labels).clone(), args, tid, p }
}

/// children of [lo, hi] in order of their ends, each followed by itself
fn fill(c: &mut Ctx, o: &Opts, tid: u32, lo: u64, hi: u64, budget: &mut usize, depth: usize, out: &mut Vec<T>) {
    let mut at = lo;
    while *budget > 0 && c.rng.chance(4, 5) {
        // often touching: zero gaps, zero lengths, children of the same extent
        let a = if c.rng.chance(2, 5) { at } else { at + c.rng.below(hi - at + 1) };
        *budget -= 1;
        if o.instants && c.rng.chance(1, 4) {
            let mut e = leaf(c, o, tid, P::At(a));
            if c.rng.chance(2, 3) { e.kind = "QueryCacheHit".into(); }
            if o.kinds > 6 || !o.instants { out.push(e); } else { out.push(e); }
            at = a;
            continue;
        }
        if o.ints && c.rng.chance(1, 4) {
            let hi = if c.rng.bool() { 5 } else { 1 << 47 };
            let v = c.rng.below(hi);
            let mut e = leaf(c, o, tid, P::Int(v));
            if c.rng.chance(2, 3) { e.kind = if c.rng.chance(1, 12) { "artifactSize" } else { "ArtifactSize" }.into(); }
            out.push(e);
            continue;
        }
        let b = if c.rng.chance(1, 6) { a } else if c.rng.chance(1, 5) { hi } else { a + c.rng.below(hi - a + 1) };
        if depth < 30 && c.rng.chance(3, 5) {
            fill(c, o, tid, a, b, budget, depth + 1, out);
        }
        let e = leaf(c, o, tid, P::Iv(a, b));
        out.push(e);
        at = b;
    }
}

pub fn gen(c: &mut Ctx, o: &Opts) -> Vec<T> {
    if c.rng.chance(1, 40) { return large(c, o); }
    let mut per: Vec<Vec<T>> = vec![];
    for t in 0..o.threads {
        let tid = if c.rng.chance(1, 4) { c.rng.next() as u32 } else { t as u32 };
        let base = c.rng.below(50);
        let mut budget = 1 + c.rng.us(o.events);
        let mut out = vec![];
        if !per.iter().any(|p| p.first().map(|e: &T| e.tid) == Some(tid)) {
            fill(c, o, tid, base, base + o.max_time, &mut budget, 0, &mut out);
        }
        per.push(out);
    }
    // any merge that keeps the order of each thread
    let mut v = vec![];
    let mut pos = vec![0; per.len()];
    loop {
        let live: Vec<usize> = (0..per.len()).filter(|i| pos[*i] < per[*i].len()).collect();
        if live.is_empty() { break; }
        let i = *c.rng.pick(&live);
        let run = 1 + c.rng.us(3);
        for _ in 0..run {
            if pos[i] < per[i].len() { v.push(per[i][pos[i]].clone()); pos[i] += 1; }
        }
    }
    v
}

pub fn labels(c: &mut Ctx) -> Vec<String> {
    let pool = ["a", "b", "typeck", "a;b", "rustc", "z", "λ-label", "x y", "mir_built", "a_rather_long_label_of_some_query"];
    let n = 1 + c.rng.us(6);
    let mut v: Vec<String> = vec![];
    for _ in 0..n { v.push(c.rng.pick(&pool).to_string()); }
    v
}

/// labels that differ in little: white space around, case, composed characters, the last of many bytes
pub fn wide_labels(c: &mut Ctx) -> Vec<String> {
    let pool = ["a", "a ", " a", "\ta", "A", "a\u{a0}", "\u{e9}", "e\u{301}", "aa", "a;", ";a", "a,", "\u{10ffff}", "10", "9", "09", "rustc", "\"", "\\", "a\n", "<unknown>", "\u{feff}a"];
    let n = 2 + c.rng.us(6);
    let mut v: Vec<String> = (0..n).map(|_| c.rng.pick(&pool).to_string()).collect();
    if c.rng.chance(1, 4) {
        let n = *c.rng.pick(&[255usize, 256, 1024, 4095, 4096, 65535, 65536, 70000]);
        let m = "\u{e9}".repeat(n / 2);
        for e in ["x", "y", ""] { if c.rng.chance(2, 3) { v.push(format!("{}{}", m, e)); } }
    }
    v
}

/// one dimension of the trace is large: labels, depth, threads, siblings
fn large(c: &mut Ctx, o: &Opts) -> Vec<T> {
    let base = c.rng.below(50);
    let n = 257 + c.rng.us(900);
    let mut v = vec![];
    match c.rng.us(4) {
        0 => for i in 0..n { let a = base + 7 * i as u64; let d = c.rng.below(6); let mut e = leaf(c, o, 1, P::Iv(a, a + 1 + d)); e.label = format!("l{}", i); v.push(e); },
        1 => {
            let d = n / 3;
            for i in (0..d).rev() { let e = leaf(c, o, 1, P::Iv(base + i as u64, base + 2 * n as u64 - i as u64)); v.push(e); }
        }
        2 if o.threads > 1 => for i in 0..n / 2 { let t = base + c.rng.below(1000); let d = c.rng.below(1000); let e = leaf(c, o, i as u32, P::Iv(t, t + d)); v.push(e); },
        _ => {
            for i in 0..n { let a = base + 3 * i as u64; let p = if o.ints && c.rng.chance(1, 3) { P::Int(c.rng.below(9)) } else if o.instants && c.rng.chance(1, 3) { P::At(a) } else { P::Iv(a, a + 1 + c.rng.below(2)) }; let mut e = leaf(c, o, 1, p); if let P::Int(_) = p { e.kind = "ArtifactSize".into(); } v.push(e); }
            let e = leaf(c, o, 1, P::Iv(base, base + 3 * n as u64));
            v.push(e);
        }
    }
    v
}

pub fn opts(c: &mut Ctx) -> Opts {
    let big = c.rng.chance(1, 10);
    Opts {
        threads: 1 + c.rng.us(4),
        events: 1 + c.size.min(if big { 60 } else { 14 }),
        max_time: *c.rng.pick(&[0u64, 3, 10, 1000, 1_000_000_007, 1 << 40, 100_000_000_000_000]),
        labels: labels(c),
        instants: c.rng.bool(),
        ints: c.rng.bool(),
        kinds: 1 + c.rng.us(KINDS.len()),
        args: false,
        big,
    }
}

/// writes the trace as a version 9 file; event times are relative to `start` (nanoseconds since the epoch)
pub fn file(tr: &[T], start: u64, pid: u32, cmd: &str) -> File {
    let mut f = File::new(start, pid, cmd);
    let mut ids: HashMap<String, u64> = HashMap::new();
    for e in tr {
        let k = match ids.get(&e.kind) { Some(i) => *i, None => { let i = f.string(&e.kind); ids.insert(e.kind.clone(), i); i } };
        let mut t = e.label.clone();
        for a in &e.args { t.push('\x1E'); t.push_str(a); }
        let key = format!("\0{}", t);
        let id = match ids.get(&key) { Some(i) => *i, None => { let i = f.string(&t); ids.insert(key, i); i } };
        let (p1, p2) = match e.p { P::Iv(a, b) => (a, b), P::At(a) => (a, INSTANT), P::Int(v) => (v, INTEGER) };
        f.event(Ev { kind: k, id, tid: e.tid, p1, p2 });
    }
    f
}

/// index of the innermost enclosing interval of interval or instant i: among the later stored intervals of its thread that
/// contain it, the first (they contain each other)
pub fn parent(tr: &[T], i: usize) -> Option<usize> {
    let (a, b) = match tr[i].p { P::Iv(a, b) => (a, b), P::At(a) => (a, a), _ => return None };
    (i + 1..tr.len()).find(|j| tr[*j].tid == tr[i].tid && matches!(tr[*j].iv(), Some((c, d)) if c <= a && b <= d))
}

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Row { pub time: u128, pub own: i128, pub misses: usize, pub hits: usize, pub inv: usize, pub blocked: u128, pub load: i128, pub hash: i128 }

pub fn rows(tr: &[T]) -> BTreeMap<String, Row> {
    let mut m: BTreeMap<String, Row> = BTreeMap::new();
    for e in tr {
        match e.p {
            P::At(_) if e.kind == "QueryCacheHit" => { let r = m.entry(e.label.clone()).or_default(); r.hits += 1; r.inv += 1; }
            P::Iv(a, b) => {
                let d = (b - a) as u128;
                let r = m.entry(e.label.clone()).or_default();
                r.own += d as i128;
                if e.kind != "IncrementalResultHashing" { r.time += d; }
                if e.kind == "Query" || e.kind == "GenericActivity" { r.misses += 1; }
                if e.kind != "IncrementalResultHashing" && e.kind != "IncrementalLoadResult" { r.inv += 1; }
                if e.kind == "QueryBlocked" { r.blocked += d; }
                if e.kind == "IncrementalLoadResult" { r.load += d as i128; }
                if e.kind == "IncrementalResultHashing" { r.hash += d as i128; }
            }
            _ => {}
        }
    }
    for i in 0..tr.len() {
        if tr[i].iv().is_none() { continue; }
        if let Some(p) = parent(tr, i) {
            let d = tr[i].dur() as i128;
            let r = m.get_mut(&tr[p].label).unwrap();
            r.own -= d;
            if tr[p].kind == "IncrementalLoadResult" { r.load -= d; }
            if tr[p].kind == "IncrementalResultHashing" { r.hash -= d; }
        }
    }
    m
}

/// sum over threads of latest end minus earliest start
pub fn total(tr: &[T]) -> u128 {
    let mut m: HashMap<u32, (u64, u64)> = HashMap::new();
    for e in tr {
        if let Some((a, b)) = e.iv() {
            let x = m.entry(e.tid).or_insert((a, b));
            x.0 = x.0.min(a);
            x.1 = x.1.max(b);
        }
    }
    m.values().map(|(a, b)| (b - a) as u128).sum()
}

pub fn show(tr: &[T]) -> String {
    let mut s = tr.iter().take(60).map(|e| format!("{}/{}@{}:{:?}", e.kind, cut(&e.label, 80), e.tid, e.p)).collect::<Vec<_>>().join(" ");
    if tr.len() > 60 { s.push_str(&format!(" and {} more", tr.len() - 60)); }
    s
}

fn setup(c: &mut Ctx) -> (Vec<T>, analyzeme::ProfilingData) {
    let mut o = opts(c);
    if c.rng.chance(1, 3) { o.labels = wide_labels(c); }
    let tr = gen(c, &o);
    c.desc = show(&tr);
    c.nontrivial = tr.iter().any(|e| e.iv().is_some());
    let start = c.rng.below(1 << 60);
    let d = file(&tr, start, 1, "x").profile();
    (tr, d)
}

fn analysis(c: &mut Ctx) -> Result<(), String> {
    let (tr, d) = setup(c);
    let want = rows(&tr);
    let r = d.perform_analysis();
    check!(r.total_time.as_nanos() == total(&tr), "total time {:?}, expected {} ns", r.total_time, total(&tr));
    let mut got: BTreeMap<String, Row> = BTreeMap::new();
    for q in &r.query_data {
        let row = Row { time: q.time.as_nanos(), own: q.self_time.as_nanos() as i128, misses: q.number_of_cache_misses, hits: q.number_of_cache_hits,
            inv: q.invocation_count, blocked: q.blocked_time.as_nanos(), load: q.incremental_load_time.as_nanos() as i128, hash: q.incremental_hashing_time.as_nanos() as i128 };
        check!(got.insert(q.label.clone(), row).is_none(), "label {} is listed twice", esc(&q.label));
    }
    for (l, w) in &want {
        match got.get(l) {
            None => return Err(format!("label {} is not listed", esc(l))),
            Some(g) => check!(g == w, "label {}: {:?}, expected {:?}", esc(l), g, w),
        }
    }
    check!(got.len() == want.len(), "labels listed: {:?}, expected {:?}", got.keys(), want.keys());
    Ok(())
}

fn sizes(c: &mut Ctx) -> Result<(), String> {
    let mut o = opts(c);
    o.ints = true;
    if c.rng.chance(1, 3) { o.labels = wide_labels(c); }
    let tr = gen(c, &o);
    c.desc = show(&tr);
    let d = file(&tr, 0, 1, "x").profile();
    let mut want: BTreeMap<String, u64> = BTreeMap::new();
    for e in &tr {
        if let P::Int(v) = e.p { if e.kind == "ArtifactSize" { *want.entry(e.label.clone()).or_default() += v; c.nontrivial = true; } }
    }
    let r = d.perform_analysis();
    let got: Vec<(String, u64)> = r.artifact_sizes.iter().map(|a| (a.label.clone(), a.value)).collect();
    let want: Vec<(String, u64)> = want.into_iter().collect();
    check!(got == want, "artifact sizes {:?}, expected {:?}", got, want);
    Ok(())
}

fn stacks(tr: &[T]) -> BTreeMap<String, i128> {
    let mut want: BTreeMap<String, i128> = BTreeMap::new();
    let mut top = 0i128;
    fn path(tr: &[T], i: usize) -> String {
        match parent(tr, i) { Some(p) => format!("{};{}", path(tr, p), tr[i].label), None => format!("rustc;{}", tr[i].label) }
    }
    for i in 0..tr.len() {
        if tr[i].iv().is_none() { continue; }
        *want.entry(path(tr, i)).or_default() += tr[i].dur() as i128;
        match parent(tr, i) {
            Some(p) => *want.entry(path(tr, p)).or_default() -= tr[i].dur() as i128,
            None => top += tr[i].dur() as i128,
        }
    }
    want.insert("rustc".into(), total(tr) as i128 - top);
    want
}
fn collapse(c: &mut Ctx) -> Result<(), String> {
    let (tr, d) = setup(c);
    let want = stacks(&tr);
    let got: BTreeMap<String, i128> = analyzeme::collapse_stacks(&d).into_iter().map(|(k, v)| (k, v as i128)).collect();
    for (k, w) in &want {
        check!(got.get(k) == Some(w), "stack {}: {:?}, expected {}", esc(k), got.get(k), w);
    }
    check!(got.len() == want.len(), "stacks {:?}, expected {:?}", got.keys(), want.keys());
    check!(got.values().sum::<i128>() == total(&tr) as i128, "the numbers add up to {}, not {}", got.values().sum::<i128>(), total(&tr));
    Ok(())
}

/// the file the real stack_collapse writes
fn stack_file(c: &mut Ctx) -> Result<(), String> {
    let mut o = opts(c);
    if c.rng.chance(1, 3) { o.labels = wide_labels(c); }
    let tr = gen(c, &o);
    c.desc = format!("program: {}", show(&tr));
    c.nontrivial = tr.iter().any(|e| e.iv().is_some());
    let path = c.dir.join("s.mm_profdata");
    let page = 1 + c.rng.us(200);
    std::fs::write(&path, file(&tr, c.rng.below(1 << 60), 1, "x").bytes(page)).unwrap();
    let out = c.dir.join("out.stacks_folded");
    // what an earlier run left is replaced
    if c.rng.bool() { std::fs::write(&out, "rustc 1\n".repeat(400)).unwrap(); } else { let _ = std::fs::remove_file(&out); }
    let r = std::process::Command::new(crate::tools::bin("stack_collapse")).arg(&path).current_dir(&c.dir).output().map_err(|e| format!("cannot run stack_collapse: {}", e))?;
    check!(r.status.success(), "stack_collapse failed: {}", cut(&String::from_utf8_lossy(&r.stderr), 300));
    let got = std::fs::read_to_string(&out).map_err(|e| format!("no out.stacks_folded: {}", e))?;
    let mut len = 0;
    for (k, v) in stacks(&tr) {
        let l = format!("{} {}\n", k, v);
        check!(got.starts_with(&l) || got.contains(&format!("\n{}", l)), "no line {} in {}", esc(&l), cut(&esc(&got), 600));
        len += l.len();
    }
    check!(got.len() == len, "{} bytes in out.stacks_folded, expected {}: {}", got.len(), len, cut(&esc(&got), 600));
    Ok(())
}

pub const CASES: &[(&str, &str, Case)] = &[
    ("C14", "per-label numbers and total time of a nested trace", analysis),
    ("C16", "artifact sizes", sizes),
    ("C15", "collapsed stacks of a nested trace", collapse),
    ("C15", "the file stack_collapse writes", stack_file),
];
