//! summarize, driven as the real binary.
use crate::common::*;
use crate::tools::bin;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::process::Command;

const LABELS: &[&str] = &["typeck", "a", "b", "é", "mir_borrowck", "ab", "a b", "\"q\"", "x::y", "LLVM", "zz", "日本"];
const TIMES: &[&str] = &["time", "self_time", "blocked_time", "incremental_load_time", "incremental_hashing_time"];
const COUNTS: &[&str] = &["number_of_cache_misses", "number_of_cache_hits", "invocation_count"];

fn nanos(c: &mut Ctx) -> u64 {
    match c.rng.us(8) {
        0 => 0,
        1 => u64::MAX - c.rng.below(3),
        2 => 1_000_000_000 * c.rng.below(5),
        3 => c.rng.next(),
        _ => c.rng.below(6),
    }
}
fn dur(n: u64) -> Value {
    json!({"secs": n / 1_000_000_000, "nanos": n % 1_000_000_000})
}
type Side = (BTreeMap<String, (Vec<u64>, Vec<u64>)>, BTreeMap<String, u64>, u64);
fn side(c: &mut Ctx) -> Side {
    let mut q = BTreeMap::new();
    let mut a = BTreeMap::new();
    for _ in 0..c.rng.us(2 + c.size.min(12)) {
        let l = c.rng.pick(LABELS).to_string();
        let t = TIMES.iter().map(|_| nanos(c)).collect::<Vec<_>>();
        let k = COUNTS.iter().map(|_| c.rng.below(4) * c.rng.below(1 << 40)).collect::<Vec<_>>();
        q.insert(l, (t, k));
    }
    if c.rng.chance(1, 30) {
        for i in 0..150 + c.rng.us(200) {
            q.insert(format!("q{}", i), (TIMES.iter().map(|_| nanos(c)).collect(), COUNTS.iter().map(|_| c.rng.below(4)).collect()));
            a.insert(format!("s{}", i), c.rng.below(5));
        }
    }
    for _ in 0..c.rng.us(5) {
        let v = if c.rng.chance(1, 6) { i64::MAX as u64 - c.rng.below(2) } else { c.rng.below(5) };
        a.insert(c.rng.pick(LABELS).to_string(), v);
    }
    (q, a, nanos(c))
}
fn results(c: &mut Ctx, s: &Side) -> Value {
    let mut q: Vec<Value> = s.0.iter().map(|(l, (t, k))| {
        let mut m = serde_json::Map::new();
        m.insert("label".into(), json!(l));
        for (n, v) in TIMES.iter().zip(t) { m.insert(n.to_string(), dur(*v)); }
        for (n, v) in COUNTS.iter().zip(k) { m.insert(n.to_string(), json!(v)); }
        Value::Object(m)
    }).collect();
    c.rng.shuffle(&mut q);
    let mut a: Vec<Value> = s.1.iter().map(|(l, v)| json!({"label": l, "value": v})).collect();
    c.rng.shuffle(&mut a);
    json!({"query_data": q, "artifact_sizes": a, "total_time": dur(s.2)})
}
/// {"duration": {"secs", "nanos"}, "is_positive"} as an integer
fn signed(v: &Value) -> Result<i128, String> {
    let d = &v["duration"];
    let n = d["secs"].as_u64().ok_or(format!("no duration in {}", v))? as i128 * 1_000_000_000 + d["nanos"].as_u64().ok_or(format!("no nanos in {}", v))? as i128;
    Ok(if v["is_positive"].as_bool().ok_or("no sign")? { n } else { -n })
}
/// change in percent of the base; nothing to something is infinite, something to nothing -100
fn percentage(b: &Side, n: &Side, l: &str, i: usize) -> f64 {
    match (b.0.get(l), n.0.get(l)) {
        (Some(b), Some(n)) => (n.0[i] as i128 - b.0[i] as i128) as f64 / b.0[i] as f64 * 100.0,
        (None, _) => f64::INFINITY,
        (_, None) => -100.0,
    }
}
fn diff(c: &mut Ctx) -> Result<(), String> {
    let b = side(c);
    let mut n = side(c);
    // often the same labels on both sides
    for l in b.0.keys().cloned().collect::<Vec<_>>() {
        if c.rng.chance(1, 2) && !n.0.contains_key(&l) {
            let mut e = b.0[&l].clone();
            if c.rng.chance(1, 2) { e.0[1] = nanos(c); }
            n.0.insert(l, e);
        }
    }
    c.desc = format!("base {:?} change {:?}", b, n);
    c.nontrivial = b.0.len() + n.0.len() > 2;
    for (d, s) in [("base", &b), ("change", &n)] {
        let dir = c.dir.join(d);
        std::fs::create_dir_all(&dir).unwrap();
        let v = results(c, s);
        std::fs::write(dir.join("r.json"), v.to_string()).unwrap();
    }
    // the result replaces what is there
    let out = c.dir.join("change/r.json");
    let r = Command::new(bin("summarize")).arg("diff").arg("--json").arg(c.dir.join("base/r.json")).arg(&out).output().map_err(|e| format!("cannot run summarize: {}", e)).unwrap();
    check!(r.status.success(), "summarize diff failed: {}", cut(&String::from_utf8_lossy(&r.stderr), 300));
    let v: Value = serde_json::from_slice(&std::fs::read(&out).map_err(|e| format!("no result file: {}", e))?).map_err(|e| e.to_string())?;
    let rows = v["query_data"].as_array().ok_or("no rows")?;
    let mut seen = BTreeMap::new();
    let mut last = i128::MAX;
    for r in rows {
        let l = r["label"].as_str().ok_or("no label")?.to_string();
        check!(seen.insert(l.clone(), ()).is_none(), "label {:?} appears twice", l);
        check!(b.0.contains_key(&l) || n.0.contains_key(&l), "label {:?} is in neither summary", l);
        for (i, f) in TIMES.iter().enumerate() {
            let g = |s: &Side| s.0.get(&l).map_or(0, |e| e.0[i]) as i128;
            let w = g(&n) - g(&b);
            check!(signed(&r[*f])? == w, "{} of {:?} is {} ns, expected {}", f, l, signed(&r[*f])?, w);
        }
        for (i, f) in COUNTS.iter().enumerate() {
            let g = |s: &Side| s.0.get(&l).map_or(0, |e| e.1[i]) as i64;
            let w = g(&n) - g(&b);
            check!(r[*f].as_i64() == Some(w), "{} of {:?} is {}, expected {}", f, l, r[*f], w);
        }
        for (f, i) in [("time_change", 0), ("self_time_change", 1)] {
            let w = percentage(&b, &n, &l, i);
            match r[f].as_f64() {
                Some(g) => check!((g - w).abs() <= w.abs() * 1e-9, "{} of {:?} is {}, expected {}", f, l, g, w),
                None => check!(r[f].is_null() && !w.is_finite(), "{} of {:?} is {}, expected {}", f, l, r[f], w),
            }
        }
        let m = signed(&r["self_time"])?.abs();
        check!(m <= last, "rows are not ordered by magnitude of self time change at {:?}", l);
        last = m;
    }
    for l in b.0.keys().chain(n.0.keys()) {
        check!(seen.contains_key(l), "label {:?} is missing", l);
    }
    let mut seen = BTreeMap::new();
    let mut last = i64::MAX;
    for r in v["artifact_sizes"].as_array().ok_or("no sizes")? {
        let l = r["label"].as_str().ok_or("no label")?.to_string();
        check!(seen.insert(l.clone(), ()).is_none(), "artifact {:?} appears twice", l);
        let w = n.1.get(&l).copied().unwrap_or(0) as i64 - b.1.get(&l).copied().unwrap_or(0) as i64;
        let g = r["size_change"].as_i64();
        check!(g == Some(w), "size change of {:?} is {:?}, expected {}", l, g, w);
        check!(w <= last, "artifact sizes are not ordered by decreasing change at {:?}", l);
        last = w;
    }
    for l in b.1.keys().chain(n.1.keys()) {
        check!(seen.contains_key(l), "artifact {:?} is missing", l);
    }
    check!(signed(&v["total_time"])? == n.2 as i128 - b.2 as i128, "total time change is {}", signed(&v["total_time"])?);
    // the same as tables
    let ex: Vec<String> = (0..c.rng.us(3)).map(|_| c.rng.pick(&["a", "mir", " ", "b", "::", "typeck", "zzz", "é", "A", "llvm", "LLVM", "a b", ""]).to_string()).collect();
    c.desc = format!("tables, without {:?}; {}", ex, c.desc);
    // the JSON output of the first run replaced the input
    std::fs::write(&out, results(c, &n).to_string()).unwrap();
    let mut cmd = Command::new(bin("summarize"));
    cmd.arg("diff");
    for e in &ex { cmd.arg("-e").arg(e); }
    let r = cmd.arg(c.dir.join("base/r.json")).arg(&out).output().unwrap();
    check!(r.status.success(), "summarize diff failed: {}", cut(&String::from_utf8_lossy(&r.stderr), 300));
    let text = String::from_utf8(r.stdout).map_err(|e| e.to_string())?;
    let mut tabs: Vec<Vec<Vec<String>>> = vec![vec![]];
    for l in text.lines() {
        if let Some(t) = l.strip_prefix("Total cpu time: ") {
            let w = n.2 as i128 - b.2 as i128;
            check!(t == signed_text(w) || w == 0 && t == "-0ns", "total time {}, expected {}", t, signed_text(w));
            tabs.push(vec![]);
        }
        if l.starts_with('|') { let k = l.chars().count(); tabs.last_mut().unwrap().push(l.chars().skip(1).take(k - 2).collect::<String>().split('|').map(|x| x.trim().to_string()).collect()); }
    }
    check!(tabs.len() == 2 && tabs.iter().all(|t| !t.is_empty()), "no two tables in {:?}", cut(&text, 400));
    let shown = |l: &str| !ex.iter().any(|e| l.contains(e.as_str()));
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in b.0.keys().chain(n.0.keys()).filter(|l| shown(l)) {
        let t = |i: usize| { let g = |s: &Side| s.0.get(l).map_or(0, |e| e.0[i]) as i128; signed_text(g(&n) - g(&b)) };
        let k = |i: usize| { let g = |s: &Side| s.0.get(l).map_or(0, |e| e.1[i]) as i64; format!("{:+}", g(&n) - g(&b)) };
        want.insert(l.clone(), vec![t(1), t(0), k(2), k(1), t(2), t(3), t(4)]);
    }
    check!(tabs[0][0] == ["Item", "Self Time", "Self Time Change", "Time", "Time Change", "Item count", "Cache hits", "Blocked time", "Incremental load time", "Incremental hashing time"], "columns {:?}", tabs[0][0]);
    check!(tabs[0].len() - 1 == want.len(), "{} rows, expected {}: {}", tabs[0].len() - 1, want.len(), cut(&text, 800));
    let mut last = u128::MAX;
    for r in &tabs[0][1..] {
        let w = want.get(&r[0]).ok_or(format!("row of {:?} should not be there", r[0]))?;
        let g: Vec<&str> = [1, 3, 5, 6, 7, 8, 9].iter().map(|i| r[*i].as_str()).collect();
        check!(g.iter().zip(w).all(|(a, b)| a == b || *a == "-0ns" && b == "+0ns"), "row of {:?} is {:?}, expected {:?}", r[0], g, w);
        for (at, i) in [(2, 1), (4, 0)] {
            let w = percentage(&b, &n, &r[0], i);
            let g: f64 = r[at].strip_suffix('%').and_then(|x| x.parse().ok()).ok_or(format!("no percentage in {:?}", r[at]))?;
            check!(g == w || g.is_nan() && w.is_nan() || (g - w).abs() <= 0.005 + w.abs() * 1e-9, "change of {:?} is printed as {}, expected {:+.2}%", r[0], r[at], w);
        }
        let own = |s: &Side| s.0.get(&r[0]).map_or(0, |e| e.0[1]) as i128;
        let m = (own(&n) - own(&b)).unsigned_abs();
        check!(m <= last, "printed rows are not ordered by magnitude of self time change at {:?}", r[0]);
        last = m;
    }
    let want: BTreeMap<&String, i64> = b.1.keys().chain(n.1.keys()).filter(|l| shown(l)).map(|l| (l, n.1.get(l).copied().unwrap_or(0) as i64 - b.1.get(l).copied().unwrap_or(0) as i64)).collect();
    check!(tabs[1].len() - 1 == want.len(), "{} artifact rows, expected {}: {}", tabs[1].len() - 1, want.len(), cut(&text, 800));
    let mut last = i64::MAX;
    for r in &tabs[1][1..] {
        let w = *want.get(&r[0]).ok_or(format!("artifact {:?} should not be there", r[0]))?;
        check!(r[1] == format!("{} bytes", w), "size change of {:?} is {}, expected {}", r[0], r[1], w);
        check!(w <= last, "printed artifact sizes are not ordered by decreasing change at {:?}", r[0]);
        last = w;
    }
    Ok(())
}
/// a saved summary (summarize --json) stands for its profile
fn saved(c: &mut Ctx) -> Result<(), String> {
    let mut f = vec![];
    c.desc = String::new();
    for d in ["base", "change"] {
        let o = trace::opts(c);
        let tr = trace::gen(c, &o);
        c.desc.push_str(&format!("{}: {} ", d, trace::show(&tr)));
        let dir = c.dir.join(d);
        let away = c.dir.join(format!("saved {}", d));
        for d in [&dir, &away] { let _ = std::fs::remove_dir_all(d); std::fs::create_dir_all(d).unwrap(); }
        std::fs::write(dir.join("p.mm_profdata"), trace::file(&tr, c.rng.below(1 << 60), 7, "x").bytes(c.rng.us(3000) + 1)).unwrap();
        let r = Command::new(bin("summarize")).arg("summarize").arg("--json").arg(dir.join("p")).output().unwrap();
        check!(r.status.success(), "summarize --json failed: {}", cut(&String::from_utf8_lossy(&r.stderr), 300));
        let n = away.join(*c.rng.pick(&["s.json", "a.b.json", "json.json"]));
        std::fs::rename(dir.join("p.json"), &n).map_err(|e| format!("no saved summary: {}", e))?;
        f.push([dir.join(if c.rng.bool() { "p" } else { "p.mm_profdata" }), n]);
    }
    let mut outs = vec![];
    for k in 0..4 {
        let r = Command::new(bin("summarize")).arg("diff").arg(&f[0][k / 2]).arg(&f[1][k % 2]).output().unwrap();
        check!(r.status.success(), "summarize diff {} {} failed: {}", f[0][k / 2].display(), f[1][k % 2].display(), cut(&String::from_utf8_lossy(&r.stderr), 300));
        let mut l: Vec<String> = String::from_utf8_lossy(&r.stdout).lines().map(|l| l.to_string()).collect();
        l.sort();
        c.nontrivial |= l.len() > 12;
        outs.push(l);
    }
    for k in 1..4 { check!(outs[k] == outs[0], "the diff of {} and {} is {:?}, that of the profiles {:?}", f[0][k / 2].display(), f[1][k % 2].display(), cut(&outs[k].join("\n"), 500), cut(&outs[0].join("\n"), 500)); }
    Ok(())
}
fn signed_text(n: i128) -> String {
    let a = n.unsigned_abs();
    format!("{}{:?}", if n < 0 { "-" } else { "+" }, std::time::Duration::new((a / 1_000_000_000) as u64, (a % 1_000_000_000) as u32))
}


// ---- aggregate -------------------------------------------------------------------------------------------------------------
use crate::trace::{self, P, T};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Point { Start(usize), End(usize), At(usize) }
fn name(e: &T) -> String {
    let k = if e.kind == "Query" || e.kind == "GenericActivity" { String::new() } else { format!("{} ", e.kind) };
    format!("{}`{}({})`", k, e.label, e.args.join(", "))
}
/// the points of the (sub)tree, forwards
fn walk(tr: &[T], kids: &[Vec<usize>], list: &[usize], out: &mut Vec<Point>) {
    for i in list {
        match tr[*i].p {
            P::Iv(..) => { out.push(Point::Start(*i)); walk(tr, kids, &kids[*i], out); out.push(Point::End(*i)); }
            P::At(_) => out.push(Point::At(*i)),
            P::Int(_) => {}
        }
    }
}
fn when(tr: &[T], p: Point) -> u64 {
    match (p, tr[match p { Point::Start(i) | Point::End(i) | Point::At(i) => i }].p) {
        (Point::Start(_), P::Iv(a, _)) => a,
        (Point::End(_), P::Iv(_, b)) => b,
        (_, P::At(a)) => a,
        _ => unreachable!(),
    }
}
fn describe(tr: &[T], par: &[Option<usize>], a: Point, b: Point) -> String {
    use Point::*;
    let n = |i: usize| name(&tr[i]);
    match (a, b) {
        (Start(i), End(_)) => n(i),
        (Start(o), Start(i)) | (Start(o), At(i)) => format!("in {}, before {}", n(o), n(i)),
        (End(i), End(o)) | (At(i), End(o)) => format!("in {}, after {}", n(o), n(i)),
        (End(i), Start(j)) | (At(i), Start(j)) | (End(i), At(j)) | (At(i), At(j)) => match par[i] {
            Some(p) => format!("in {},\n    between {}\n        and {}\n", n(p), n(i), n(j)),
            None => format!("between {} and {}", n(i), n(j)),
        },
    }
}
/// the ten smallest (largest) distinct values: how often, and what it is when it is one
fn table(v: &[(u64, String)], small: bool, total: usize) -> BTreeMap<u64, String> {
    let mut m: BTreeMap<u64, Vec<String>> = BTreeMap::new();
    for (n, d) in v { m.entry(*n).or_default().push(d.clone()); }
    let keys: Vec<u64> = m.keys().copied().collect();
    let keep: Vec<u64> = if small { keys.into_iter().take(10).collect() } else { keys.into_iter().rev().take(10).collect() };
    keep.into_iter().map(|k| {
        let d = &m[&k];
        (k, if d.len() == 1 { d[0].clone() } else { format!("{} occurrences, or {:.2}%", d.len(), d.len() as f64 / total as f64 * 100.0) })
    }).collect()
}
fn section(head: &str, t: &BTreeMap<u64, String>, var: bool) -> String {
    let mut o = format!("{}:\n", head.replace("{}", &t.len().to_string()));
    for (k, d) in t {
        if var { o.push_str(&format!("  ±{} ns: {}\n", *k as f64 / 2.0, d)); } else { o.push_str(&format!("  {} ns: {}\n", k, d)); }
    }
    o
}
fn aggregate(c: &mut Ctx) -> Result<(), String> {
    let few = c.rng.bool();
    let o = trace::Opts { threads: 1, events: if few { 4 } else { 1 + c.size.min(40) }, max_time: *c.rng.pick(&[3u64, 20, 200, 1_000_000_007, 1 << 40]), labels: if c.rng.chance(1, 4) { trace::wide_labels(c) } else { trace::labels(c) }, instants: c.rng.bool(), ints: c.rng.bool(), kinds: 1 + c.rng.us(trace::KINDS.len()), args: c.rng.bool(), big: false };
    let tr = trace::gen(c, &o);
    // the same sequence with other times: strictly monotone maps of the time axis
    let mut times: Vec<u64> = tr.iter().flat_map(|e| match e.p { P::Iv(a, b) => vec![a, b], P::At(a) => vec![a], _ => vec![] }).collect();
    times.sort();
    times.dedup();
    let n = 1 + c.rng.us(4);
    let mut profiles = vec![tr.clone()];
    for _ in 1..n {
        let mut m = BTreeMap::new();
        let step = *c.rng.pick(&[1u64, 3, 1000, 1 << 30]);
        let keep = c.rng.bool();
        let mut t = c.rng.below(20);
        let mut last = 0;
        for x in &times { t += if keep && c.rng.chance(3, 4) { x - last } else { 1 + c.rng.below(step) }; if *x == last && keep { t += 1; } m.insert(*x, t); last = *x; }
        profiles.push(tr.iter().map(|e| T { p: match e.p { P::Iv(a, b) => P::Iv(m[&a], m[&b]), P::At(a) => P::At(m[&a]), v => v }, ..e.clone() }).collect());
    }
    c.desc = format!("{} profiles; {}", n, trace::show(&tr));
    c.nontrivial = tr.len() > 1;
    let par: Vec<Option<usize>> = (0..tr.len()).map(|i| trace::parent(&tr, i)).collect();
    let mut kids = vec![vec![]; tr.len()];
    let mut roots = vec![];
    for i in 0..tr.len() { match par[i] { Some(p) => kids[p].push(i), None => roots.push(i) } }
    let mut pts = vec![];
    walk(&tr, &kids, &roots, &mut pts);
    let (mut mins, mut maxs, mut vars) = (vec![], vec![], vec![]);
    for w in pts.windows(2) {
        let d: Vec<u64> = profiles.iter().map(|t| when(t, w[1]) - when(t, w[0])).collect();
        let (lo, hi) = (*d.iter().min().unwrap(), *d.iter().max().unwrap());
        let t = describe(&tr, &par, w[0], w[1]);
        mins.push((lo, t.clone()));
        maxs.push((hi, t.clone()));
        vars.push((hi - lo, t));
    }
    let k = mins.len();
    let want = [section("Smallest {} durations", &table(&mins, true, k), false), section("Largest {} durations", &table(&maxs, false, k), false),
        section("Smallest {} variances", &table(&vars, true, k), true), section("Largest {} variances", &table(&vars, false, k), true)].join("\n");
    let mut cmd = Command::new(bin("summarize"));
    cmd.arg("aggregate");
    for (i, t) in profiles.iter().enumerate() {
        let p = c.dir.join(format!("p{}.mm_profdata", i));
        let start = c.rng.below(1 << 60);
        std::fs::write(&p, trace::file(t, start, 7, "x").bytes(c.rng.us(3000) + 1)).unwrap();
        cmd.arg(c.dir.join(format!("p{}", i)));
    }
    let r = cmd.output().map_err(|e| format!("cannot run summarize: {}", e)).unwrap();
    check!(r.status.success(), "summarize aggregate failed: {}", cut(&String::from_utf8_lossy(&r.stderr), 300));
    let got = String::from_utf8_lossy(&r.stdout).to_string();
    if got != want {
        let (g, w): (Vec<&str>, Vec<&str>) = (got.lines().collect(), want.lines().collect());
        let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap_or(0);
        return Err(format!("line {} of the report is {:?}, expected {:?}", i + 1, g.get(i), w.get(i)));
    }
    Ok(())
}

// ---- summarize -------------------------------------------------------------------------------------------------------------
fn columns(c: &mut Ctx) -> Result<(), String> {
    let mut o = trace::opts(c);
    o.ints = false;
    let mut tr = trace::gen(c, &o);
    // often only some of the columns have data, in only one place
    let cut_kinds: Vec<&str> = ["QueryCacheHit", "QueryBlocked", "IncrementalLoadResult", "IncrementalResultHashing"].iter().filter(|_| c.rng.bool()).copied().collect();
    let tr_len = tr.len();
    for e in tr.iter_mut() {
        if let P::Int(_) = e.p { continue; }
        if cut_kinds.contains(&e.kind.as_str()) && (tr_len > 200 || !c.rng.chance(1, 8)) { e.kind = "Query".into(); }
    }
    if tr_len > 200 {
        for k in &cut_kinds { let i = c.rng.us(tr_len); if let P::Iv(..) = tr[i].p { tr[i].kind = k.to_string(); } }
    }
    let start = 1 + c.rng.below(1 << 40);
    let f = trace::file(&tr, start, 7, "x y");
    let page = 1 + c.rng.us(300);
    let path = c.dir.join("s.mm_profdata");
    std::fs::write(&path, f.bytes(page)).unwrap();
    let res = f.profile().perform_analysis();
    let total = res.total_time.as_nanos() as f64;
    let pc = |d: std::time::Duration| (d.as_nanos() as f64) / total * 100.0;
    let mut own: Vec<_> = res.query_data.iter().map(|q| q.self_time).collect();
    own.sort_by(|a, b| b.cmp(a));
    let limit: Option<f64> = match c.rng.us(5) {
        0 => None,
        1 => Some(0.0),
        2 => Some(100.0),
        3 => Some(c.rng.below(100) as f64),
        // around one of the rows
        _ if !own.is_empty() && pc(own[0]).is_finite() => { let k = c.rng.us(own.len()); let p = pc(own[k]); Some(if c.rng.bool() { p } else { (p + 0.001).min(100.0) }) }
        _ => Some(50.0),
    };
    c.desc = format!("percent above {:?} {}", limit, trace::show(&tr));
    c.nontrivial = own.len() > 1;
    let mut cmd = Command::new(bin("summarize"));
    cmd.arg("summarize").arg(&path);
    if let Some(l) = limit { cmd.arg("-p").arg(format!("{}", l)); }
    let r = cmd.output().map_err(|e| format!("cannot run summarize: {}", e))?;
    check!(r.status.success(), "summarize failed: {}", cut(&String::from_utf8_lossy(&r.stderr), 300));
    let text = String::from_utf8(r.stdout).map_err(|e| e.to_string())?;
    let mut rows: Vec<Vec<String>> = vec![];
    for l in text.lines() {
        if l.starts_with("Total cpu time") { break; }
        if l.starts_with('|') { let n = l.chars().count(); rows.push(l.chars().skip(1).take(n - 2).collect::<String>().split('|').map(|x| x.trim().to_string()).collect()); }
    }
    check!(!rows.is_empty(), "no table in {:?}", cut(&text, 300));
    let zero = std::time::Duration::from_secs(0);
    let q = &res.query_data;
    let has = [q.iter().any(|r| r.number_of_cache_hits > 0), q.iter().any(|r| r.blocked_time > zero), q.iter().any(|r| r.incremental_load_time > zero), q.iter().any(|r| r.incremental_hashing_time > zero)];
    let names = ["Item", "Self time", "% of total time", "Time", "Item count"];
    let opt = ["Cache hits", "Blocked time", "Incremental load time", "Incremental result hashing time"];
    let mut want: Vec<&str> = names.to_vec();
    want.extend(opt.iter().zip(has).filter(|x| x.1).map(|x| *x.0));
    check!(rows[0] == want, "columns are {:?}, expected {:?}", rows[0], want);
    let n = own.iter().position(|d| pc(*d) < limit.unwrap_or(0.0)).unwrap_or(own.len());
    check!(rows.len() - 1 == n, "{} rows, expected {} (self times {:?}, limit {:?})", rows.len() - 1, n, own, limit);
    let mut seen = std::collections::BTreeSet::new();
    for (i, r) in rows[1..].iter().enumerate() {
        let e = q.iter().find(|e| e.label.trim() == r[0]).ok_or(format!("row for unknown item {:?}", r[0]))?;
        check!(seen.insert(e.label.clone()), "two rows for {:?}", r[0]);
        check!(e.self_time == own[i], "row {} is {:?} with self time {:?}, expected self time {:?}", i, e.label, e.self_time, own[i]);
        let mut w = vec![e.label.trim().to_string(), format!("{:.2?}", e.self_time), format!("{:.3}", pc(e.self_time)), format!("{:.2?}", e.time), e.invocation_count.to_string()];
        let o = [e.number_of_cache_hits.to_string(), format!("{:.2?}", e.blocked_time), format!("{:.2?}", e.incremental_load_time), format!("{:.2?}", e.incremental_hashing_time)];
        w.extend(o.iter().zip(has).filter(|x| x.1).map(|x| x.0.clone()));
        check!(*r == w, "row {:?}, expected {:?}", r, w);
    }
    let f: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("Filtered results account for ")).collect();
    if limit.map_or(true, |l| l == 0.0) {
        check!(f.is_empty(), "{:?} without a limit", f);
    } else {
        let w: f64 = own[..n].iter().map(|d| pc(*d)).sum();
        let g: f64 = if f.len() == 1 { f[0].strip_suffix("% of total time.").and_then(|x| x.parse().ok()).ok_or(format!("no percentage in {:?}", f))? } else { return Err(format!("{} lines on the filtered results", f.len())) };
        check!(g.is_nan() && w.is_nan() || (g - w).abs() <= 0.002, "filtered results account for {}, expected {}", g, w);
    }
    Ok(())
}

/// the artifact sizes summarize prints
fn printed_sizes(c: &mut Ctx) -> Result<(), String> {
    let mut o = trace::opts(c);
    o.ints = true;
    let tr = trace::gen(c, &o);
    c.desc = format!("printed: {}", trace::show(&tr));
    let path = c.dir.join("a.mm_profdata");
    std::fs::write(&path, trace::file(&tr, c.rng.below(1 << 60), 7, "x").bytes(1 + c.rng.us(300))).unwrap();
    let mut want: BTreeMap<String, u64> = BTreeMap::new();
    for e in &tr {
        if let P::Int(v) = e.p { if e.kind == "ArtifactSize" { *want.entry(e.label.clone()).or_default() += v; c.nontrivial = true; } }
    }
    let r = Command::new(bin("summarize")).arg("summarize").arg(&path).output().map_err(|e| format!("cannot run summarize: {}", e))?;
    check!(r.status.success(), "summarize failed: {}", cut(&String::from_utf8_lossy(&r.stderr), 300));
    let text = String::from_utf8(r.stdout).map_err(|e| e.to_string())?;
    let at = text.find("Total cpu time").ok_or("no total time")?;
    let rows: Vec<Vec<String>> = text[at..].lines().filter(|l| l.starts_with('|')).map(|l| { let k = l.chars().count(); l.chars().skip(1).take(k - 2).collect::<String>().split('|').map(|x| x.trim().to_string()).collect() }).collect();
    let want: Vec<Vec<String>> = std::iter::once(vec!["Item".to_string(), "Artifact Size".to_string()]).chain(want.into_iter().map(|(l, v)| vec![l, format!("{} bytes", v)])).collect();
    check!(rows == want, "artifact sizes are printed as {:?}, expected {:?}", rows, want);
    Ok(())
}

pub const CASES: &[(&str, &str, Case)] = &[("C16", "printed artifact sizes", printed_sizes), ("C25", "summary table", columns), ("C17", "diff", diff), ("C17", "saved summaries", saved), ("C18", "aggregate", aggregate), ("C19", "aggregate", aggregate)];
