//! crox and mmview, driven as the real binaries.
use crate::common::*;
use crate::tools::bin;
use crate::trace::{self, P, T};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::process::Command;

/// events in any order and overlap on several threads
fn loose(c: &mut Ctx, threads: usize) -> Vec<T> {
    let span = *c.rng.pick(&[4u64, 8, 20, 5000, 5000, 1 << 33, 1 << 44, 1 << 46]);
    let mut v = vec![];
    for t in 0..threads {
        let tid = if c.rng.chance(1, 4) { c.rng.next() as u32 } else { (t * 3 % (threads + 1)) as u32 };
        let base = c.rng.below(span);
        let room = 1 + c.rng.below(span / 2 + 1);
        for _ in 0..1 + c.rng.us(3) {
            let a = base + c.rng.below(room);
            let b = a + c.rng.below(room);
            let p = match c.rng.us(8) { 0 => P::At(a), 1 => P::Int(c.rng.below(9)), _ => P::Iv(a, b) };
            let args = (0..if c.rng.chance(1, 12) { 12 } else if c.rng.chance(1, 60) { 120 } else { c.rng.us(3) }).map(|i| if c.rng.chance(1, 3) { c.rng.pick(&["x", "x ", " ", "1", ","]).to_string() } else { format!("a{}\"{}", i, c.rng.us(3)) }).collect();
            let kind = c.rng.pick(&["Query", "GenericActivity", "", "k\\"]).to_string();
            let label = c.rng.pick(&["a", "l", "é", "x\ny", "a ", " a", "😀", "\"\\/", "\u{7ff}\u{800}\u{ffff}\u{2028}", "\u{10ffff}\t", "<a>&'"]).to_string();
            v.push(T { kind, label, args, tid, p });
        }
    }
    c.rng.shuffle(&mut v);
    v
}

struct Prof { tr: Vec<T>, start: u64, pid: u32, cmd: String, path: PathBuf }

fn cmd(c: &mut Ctx) -> String {
    let mut s = String::new();
    for _ in 0..c.rng.us(6) {
        s.push_str(*c.rng.pick(&["rustc", " --crate-name ", "--crate-name", " ", "core", "é", "--crate-name ", " --crate-name=x ", "a.rs", " --crate-type "]));
    }
    s
}
fn crate_name(s: &str) -> Option<String> {
    let w: Vec<char> = s.chars().collect();
    let p: Vec<char> = " --crate-name ".chars().collect();
    let k = (0..w.len()).find(|k| w[*k..].starts_with(&p))? + p.len();
    Some(w[k..].iter().take_while(|x| **x != ' ').collect())
}

/// profiles written under the scratch directory, and the arguments that name them
fn write(c: &mut Ctx, n: usize, min_threads: usize) -> (Vec<Prof>, Vec<String>) {
    let dir = c.dir.join("profs");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let in_dir = if c.rng.chance(1, 3) { n.min(c.rng.us(n + 1)) } else { 0 };
    let mut ps = vec![];
    let mut args = vec![];
    for i in 0..n {
        let k = min_threads + if c.rng.chance(1, 25) { 200 + c.rng.us(100) } else { c.rng.us(2 + c.size.min(10)) };
        let tr = loose(c, k);
        let start = if c.rng.chance(1, 4) { c.rng.below(3000) } else { 1_500_000_000_000_000_000 + c.rng.below(1 << 50) };
        let cmd = cmd(c);
        let path = if i < in_dir { dir.join(format!("p{}.mm_profdata", i)) } else { c.dir.join(format!("q{}.mm_profdata", i)) };
        let page = 1 + c.rng.us(200);
        let pid = 10 * i as u32 + c.rng.us(9) as u32;
        std::fs::write(&path, trace::file(&tr, start, pid, &cmd).bytes(page)).unwrap();
        if i >= in_dir {
            // with or without the extension
            args.push(if c.rng.bool() { path.to_str().unwrap().to_string() } else { path.with_extension("").to_str().unwrap().to_string() });
        }
        ps.push(Prof { tr, start, pid, cmd, path });
    }
    if in_dir > 0 {
        // others are not profiles
        std::fs::write(dir.join("p0.json"), "{}").unwrap();
        std::fs::write(dir.join("mm_profdata"), "x").unwrap();
        std::fs::write(dir.join("p.mm_profdata.txt"), "x").unwrap();
        args.push("--dir".into());
        args.push(dir.to_str().unwrap().into());
    }
    (ps, args)
}
fn show(ps: &[Prof]) -> String {
    ps.iter().map(|p| format!("{} start {} pid {} cmd {:?} {}", p.path.file_name().unwrap().to_str().unwrap(), p.start, p.pid, p.cmd, trace::show(&p.tr))).collect::<Vec<_>>().join("; ")
}
fn export(c: &mut Ctx, args: &[String]) -> Result<Vec<Value>, String> {
    let out = c.dir.join("chrome_profiler.json");
    // what an earlier run left is replaced
    if c.rng.chance(1, 4) { let mut junk = "[".to_string(); junk.push_str(&"{},".repeat(c.rng.us(6000))); std::fs::write(&out, junk).unwrap(); } else { let _ = std::fs::remove_file(&out); }
    let r = Command::new(bin("crox")).args(args).current_dir(&c.dir).output().map_err(|e| format!("cannot run crox: {}", e))?;
    check!(r.status.success(), "crox {:?} failed: {}", args, cut(&String::from_utf8_lossy(&r.stderr), 300));
    let v: Value = serde_json::from_slice(&std::fs::read(&out).map_err(|e| format!("no chrome_profiler.json: {}", e))?).map_err(|e| format!("chrome_profiler.json is no JSON: {}", e))?;
    Ok(v.as_array().ok_or("not an array")?.clone())
}

fn chrome(c: &mut Ctx) -> Result<(), String> {
    let n = if c.rng.chance(1, 3) { 1 + c.rng.us(3) } else { 1 };
    let (ps, mut args) = write(c, n, 0);
    let min: Option<u128> = if c.rng.bool() { Some(*c.rng.pick(&[0u128, 1, 2, 4, 1 << 22, 1 << 32, 1 << 34, (1 << 64) - 1, 1 << 64, (1 << 64) + 2, u128::MAX])) } else { None };
    if let Some(m) = min { args.push("--minimum-duration".into()); args.push(m.to_string()); }
    c.desc = format!("{} minimum {:?}", show(&ps), min);
    c.nontrivial = ps.iter().any(|p| p.tr.len() > 3);
    let got = export(c, &args)?;
    for p in &ps {
        let mine: Vec<&Value> = got.iter().filter(|v| v["pid"] == json!(p.pid)).collect();
        let x: Vec<&Value> = mine.iter().filter(|v| v["ph"] == json!("X")).copied().collect();
        let want: Vec<Value> = p.tr.iter().filter_map(|e| {
            let (a, b) = e.iv()?;
            if min.map_or(false, |m| (((b - a) / 1000) as u128) < m) { return None; }
            let args = if e.args.is_empty() { Value::Null } else { Value::Object(e.args.iter().enumerate().map(|(i, a)| (format!("arg{}", i), json!(a))).collect()) };
            Some(json!({"name": e.label, "cat": e.kind, "ph": "X", "ts": (p.start + a) / 1000, "dur": (b - a) / 1000, "pid": p.pid, "tid": e.tid, "args": args}))
        }).collect();
        for i in 0..x.len().max(want.len()) {
            check!(i < want.len(), "more trace events than interval events: {}", x[i]);
            check!(i < x.len(), "interval event missing in the trace: {}", want[i]);
            check!(*x[i] == want[i], "trace event {} is {}, expected {}", i, x[i], want[i]);
        }
        let rest: Vec<&Value> = mine.iter().filter(|v| v["ph"] != json!("X")).copied().collect();
        let find = |n: &str| rest.iter().filter(|v| v["name"] == json!(n)).copied().collect::<Vec<_>>();
        let s = find("process_sort_index");
        check!(s.len() == 1, "{} sort index records", s.len());
        check!(s[0]["ph"] == json!("M") && s[0]["args"] == json!({"sort_index": p.start / 1000}), "sort index record {}, start time {} us", s[0], p.start / 1000);
        let s = find("process_name");
        match crate_name(&p.cmd) {
            None => check!(s.is_empty(), "process name {} for {:?}", s[0], p.cmd),
            Some(n) => check!(s.len() == 1 && s[0]["ph"] == json!("M") && s[0]["args"] == json!({"name": n}), "process name records {:?} for {:?}, expected {:?}", s, p.cmd, n),
        }
    }
    let known: BTreeSet<u32> = ps.iter().map(|p| p.pid).collect();
    for v in &got {
        check!(v["pid"].as_u64().map_or(false, |x| known.contains(&(x as u32))), "record of no profile: {}", v);
        check!(v["ph"] == json!("X") || v["ph"] == json!("M"), "unknown record {}", v);
    }
    Ok(())
}

fn collapse(c: &mut Ctx) -> Result<(), String> {
    let n = if c.rng.bool() { 1 } else { 2 + c.rng.us(2) };
    let (ps, mut args) = write(c, n, 2);
    let on = c.rng.chance(7, 8);
    if on { args.push("--collapse-threads".into()); }
    c.desc = format!("{} collapse {}", show(&ps), on);
    let got = export(c, &args)?;
    for p in &ps {
        let got: Vec<&Value> = got.iter().filter(|v| v["pid"] == json!(p.pid)).collect();
        let mut span: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
        for e in &p.tr {
            let (a, b) = match e.p { P::Iv(a, b) => (a, b), P::At(a) => (a, a), P::Int(_) => continue };
            let s = span.entry(e.tid).or_insert((a, b));
            *s = (s.0.min(a), s.1.max(b));
        }
        c.nontrivial |= span.len() > 2;
        let ids: Vec<u64> = got.iter().filter(|v| v["ph"] == json!("X")).map(|v| v["tid"].as_u64().unwrap_or(u64::MAX)).collect();
        let iv: Vec<&T> = p.tr.iter().filter(|e| e.iv().is_some()).collect();
        check!(ids.len() == iv.len(), "process {}: {} trace events for {} intervals", p.pid, ids.len(), iv.len());
        let mut map: BTreeMap<u32, u64> = BTreeMap::new();
        for (e, id) in iv.iter().zip(&ids) {
            if !on { check!(*id == e.tid as u64, "process {}: thread {} renamed to {}", p.pid, e.tid, id); continue; }
            if let Some(o) = map.insert(e.tid, *id) { check!(o == *id, "process {}: thread {} renamed to both {} and {}", p.pid, e.tid, o, id); }
        }
        if !on { continue; }
        for (a, x) in &map {
            check!(*x < span.len() as u64, "process {}: thread {} got id {} of {} threads", p.pid, a, x, span.len());
            for (b, y) in &map {
                if a < b && x == y {
                    check!(span[a].1 < span[b].0 || span[b].1 < span[a].0, "process {}: threads {} and {} overlap ({:?}, {:?}) and both got id {}", p.pid, a, b, span[a], span[b], x);
                }
            }
        }
        if map.len() == span.len() {
            let used: BTreeSet<u64> = map.values().copied().collect();
            check!(used.iter().enumerate().all(|(i, u)| i as u64 == *u), "process {}: ids are not consecutive from zero: {:?}", p.pid, used);
        }
    }
    Ok(())
}

fn listing(c: &mut Ctx) -> Result<(), String> {
    let (ps, _) = write(c, 1, 0);
    let p = &ps[0];
    let mut tids: Vec<u32> = p.tr.iter().map(|e| e.tid).collect();
    tids.push(77);
    let only = if c.rng.bool() { Some(*c.rng.pick(&tids)) } else { None };
    c.desc = format!("{} thread {:?}", show(&ps), only);
    c.nontrivial = p.tr.len() > 2;
    let mut a = vec![p.path.to_str().unwrap().to_string()];
    if let Some(t) = only { a.push("-t".into()); a.push(t.to_string()); }
    let r = Command::new(bin("mmview")).args(&a).current_dir(&c.dir).output().map_err(|e| format!("cannot run mmview: {}", e))?;
    check!(r.status.success(), "mmview failed: {}", cut(&String::from_utf8_lossy(&r.stderr), 300));
    let t0 = p.tr.iter().filter_map(|e| match e.p { P::Iv(a, _) => Some(a), P::At(a) => Some(a), P::Int(_) => None }).min().unwrap_or(0);
    let want: Vec<String> = p.tr.iter().filter(|e| only.map_or(true, |t| t == e.tid)).map(|e| {
        let v = match e.p { P::Iv(a, b) => format!("{} μs - {} μs", (a - t0) / 1000, (b - t0) / 1000), P::At(a) => format!("{} μs", (a - t0) / 1000), P::Int(v) => v.to_string() };
        format!("{{\n    kind: {},\n    label: {},\n    additional_data: [{}],\n    payload: {},\n    thread_id: {},\n}}\n", e.kind, e.label, e.args.join(","), v, e.tid)
    }).collect();
    let got = String::from_utf8(r.stdout).map_err(|e| e.to_string())?;
    let mut rest = got.as_str();
    for (i, w) in want.iter().enumerate() {
        check!(rest.starts_with(w.as_str()), "event {} of {} is printed as {:?}, expected {:?}", i, want.len(), cut(rest, w.len() + 20), w);
        rest = &rest[w.len()..];
    }
    check!(rest.is_empty(), "printed after the last event: {:?}", cut(rest, 300));
    Ok(())
}

pub const CASES: &[(&str, &str, Case)] = &[("C20", "collapsed threads", collapse), ("C22", "listing", listing), ("C26", "chrome trace", chrome)];
