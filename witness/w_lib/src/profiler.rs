//! C23, C24: the profiler, writing real files
use crate::common::*;
use analyzeme::ProfilingData;
use decodeme::event_payload::{EventPayload, Timestamp};
use measureme::{DetachedTiming, EventId, Profiler, StringId, TimingGuard};
use std::time::{Duration, Instant};

pub const CASES: &[(&str, &str, Case)] = &[
    ("C23", "random recording calls (instant, integer, guards dropped in any order, detached and abandoned, overridden ids) on one or more threads of one real profiler, read back; non-trivial: at least two events", record),
    ("C24", "a process started with random arguments (quotes, backslashes, control characters, multi-byte text, empty) writes a profile, which is opened and its command line compared; non-trivial: an argument that needs escaping", metadata),
];

#[derive(Clone, Debug)]
enum W { Iv(Duration, Duration, Duration, Duration), At(Duration, Duration), Int(u64) }
#[derive(Clone, Debug)]
struct Want { kind: usize, id: usize, tid: u32, p: W }

/// what one thread does; times are since `t0`, created before the profiler
fn thread(p: &Profiler, mut c: Rng, n: usize, kinds: &[StringId], ids: &[EventId], t0: Instant) -> Vec<Want> {
    let mut want = vec![];
    let mut guards: Vec<(TimingGuard, usize, usize, u32, Duration, Duration)> = vec![];
    let mut det: Vec<(DetachedTiming, usize, usize, u32, Duration, Duration)> = vec![];
    let pause = |c: &mut Rng| if c.chance(1, 3) { let t = Instant::now(); let d = Duration::from_micros(c.below(60)); while t.elapsed() < d {} };
    for step in 0..2 * n {
        let (k, i, tid) = (c.us(kinds.len()), c.us(ids.len()), *c.pick(&[0u32, 1, 7, 0x1_0000, u32::MAX]));
        let op = if step < n { c.us(8) } else { 4 + c.us(4) };
        pause(&mut c);
        match op {
            0 => { let a = t0.elapsed(); p.record_instant_event(kinds[k], ids[i], tid); want.push(Want { kind: k, id: i, tid, p: W::At(a, t0.elapsed()) }); }
            1 => {
                let v = match c.below(4) { 0 => 0, 1 => (1 << 48) - 1 - c.below(3), 2 => c.below(1 << 40), _ => c.below(1000) };
                let v = v.min(measureme::MAX_SINGLE_VALUE);
                p.record_integer_event(kinds[k], ids[i], tid, v); want.push(Want { kind: k, id: i, tid, p: W::Int(v) });
            }
            2 => { let a = t0.elapsed(); let g = p.start_recording_interval_event(kinds[k], ids[i], tid); guards.push((g, k, i, tid, a, t0.elapsed())); }
            3 => { let a = t0.elapsed(); let g = p.start_recording_interval_event_detached(kinds[k], ids[i], tid); det.push((g, k, i, tid, a, t0.elapsed())); }
            4 | 5 if !guards.is_empty() => {
                let at = c.us(guards.len());
                let (g, k, i0, tid, a, b) = guards.remove(at);
                let e0 = t0.elapsed();
                let id = if op == 4 {
                    // dropped, or dropped because the recorded code panics
                    if c.chance(1, 6) { let _ = panics(move || { let _g = g; if n > 0 { panic!("recorded code") } }); } else { drop(g); }
                    i0
                } else { g.finish_with_override_event_id(ids[i]); i };
                want.push(Want { kind: k, id, tid, p: W::Iv(a, b, e0, t0.elapsed()) });
            }
            6 if !det.is_empty() => {
                let at = c.us(det.len());
                let (g, k, i, tid, a, b) = det.remove(at);
                let e0 = t0.elapsed();
                p.finish_recording_interval_event(g);
                want.push(Want { kind: k, id: i, tid, p: W::Iv(a, b, e0, t0.elapsed()) });
            }
            7 if !det.is_empty() => { let at = c.us(det.len()); drop(det.remove(at)); }
            _ => {}
        }
    }
    while let Some((g, k, i, tid, a, b)) = guards.pop() {
        let e0 = t0.elapsed();
        drop(g);
        want.push(Want { kind: k, id: i, tid, p: W::Iv(a, b, e0, t0.elapsed()) });
    }
    want
}

fn record(c: &mut Ctx) -> Result<(), String> {
    let threads = if c.rng.chance(1, 2) { 1 } else { 2 + c.rng.us(3) };
    let n = if c.rng.chance(1, 60) { 6000 } else { 1 + c.rng.us(2 + 3 * c.size.min(20)) };
    // once something that takes longer than a second, once longer than 2^32 ns
    let long = match c.idx { 4 => 1100, 60 => 4400, _ => 0 };
    let stem = c.dir.join("p");
    c.desc = format!("{} threads with about {} recording calls each", threads, n);
    // what an earlier run left is replaced
    if c.rng.chance(1, 4) { let n = 1 + c.rng.us(20_000); std::fs::write(stem.with_extension("mm_profdata"), c.rng.bytes(n)).unwrap(); }
    let t0 = Instant::now();
    let p = Profiler::new(&stem).map_err(|e| format!("cannot create a profiler: {}", e))?;
    let t1 = t0.elapsed();
    // the kinds tell the threads apart
    let kinds: Vec<Vec<StringId>> = (0..threads).map(|t| (0..3).map(|i| p.alloc_string(&*format!("t{}k{}", t, i))).collect()).collect();
    // ids of strings, of a virtual string, of nothing
    let label = |t: usize, i: usize| if i == 5 { "<unknown>".to_string() } else { format!("t{}i{}", t, i) };
    let ids: Vec<Vec<EventId>> = (0..threads).map(|t| (0..6).map(|i| match i {
        5 => EventId::INVALID,
        4 => {
            let v = StringId::new_virtual(match t { 0 => 0, 1 => 100_000_000, _ => 1000 + t as u64 });
            p.map_virtual_to_concrete_string(v, p.alloc_string(&*label(t, i)));
            EventId::from_virtual(v)
        }
        _ => EventId::from_label(p.alloc_string(&*label(t, i))),
    }).collect()).collect();
    let seeds: Vec<u64> = (0..threads).map(|_| c.rng.next()).collect();
    c.desc.push_str(&format!(", seed {:x}", seeds[0]));
    let mut want: Vec<Vec<Want>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..threads).map(|t| { let (p, kinds, ids) = (&p, &kinds[t], &ids[t]); let rng = Rng::new(seeds[t], t as u64); s.spawn(move || thread(p, rng, n, kinds, ids, t0)) }).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if long > 0 {
        c.desc.push_str(&format!(", then a recording of {} ms", long));
        let a = t0.elapsed();
        let g = p.start_recording_interval_event(kinds[0][0], ids[0][0], 3);
        let b = t0.elapsed();
        std::thread::sleep(Duration::from_millis(long));
        let i = t0.elapsed();
        p.record_instant_event(kinds[0][1], ids[0][1], 4);
        want[0].push(Want { kind: 1, id: 1, tid: 4, p: W::At(i, t0.elapsed()) });
        let e = t0.elapsed();
        drop(g);
        want[0].push(Want { kind: 0, id: 0, tid: 3, p: W::Iv(a, b, e, t0.elapsed()) });
    }
    drop(p);
    let d = ProfilingData::new(&stem).map_err(|e| format!("the profile cannot be opened: {}", e))?;
    let start = d.metadata().start_time;
    let total: usize = want.iter().map(|w| w.len()).sum();
    c.nontrivial = total > 1;
    check!(d.num_events() == total, "{} events stored, {} recorded", d.num_events(), total);
    let mut at = vec![0usize; threads];
    for e in d.iter_full() {
        let l = e.event_kind.to_string();
        let (t, k) = l.get(1..).unwrap_or("").split_once('k').and_then(|(t, i)| Some((t.parse::<usize>().ok()?, i.parse::<usize>().ok()?))).ok_or(format!("unknown kind {}", esc(&l)))?;
        check!(t < threads && at[t] < want[t].len(), "thread {} stored more events than it recorded", t);
        let w = &want[t][at[t]];
        let what = format!("event {} of thread {} ({:?})", at[t], t, w);
        at[t] += 1;
        check!(k == w.kind, "{}: kind {}", what, e.event_kind);
        check!(e.label == label(t, w.id) && e.additional_data.is_empty(), "{}: label {}, arguments {:?}, expected {}", what, esc(&e.label), e.additional_data, label(t, w.id));
        check!(e.thread_id == w.tid, "{}: thread id {}", what, e.thread_id);
        // a time x since the profiler's start (which lies in 0..t1 since t0)
        let within = |x: Duration, a: Duration, b: Duration| x + t1 >= a && x <= b;
        match (&w.p, &e.payload) {
            (W::Int(v), EventPayload::Integer(g)) => check!(v == g, "{}: value {}", what, g),
            (W::At(a, b), EventPayload::Timestamp(Timestamp::Instant(x))) => {
                let x = x.duration_since(start).unwrap();
                check!(within(x, *a, *b), "{}: recorded at {:?}", what, x);
            }
            (W::Iv(a, b, e0, e1), EventPayload::Timestamp(Timestamp::Interval { start: s, end })) => {
                let (s, z) = (s.duration_since(start).unwrap(), end.duration_since(start).unwrap());
                check!(within(s, *a, *b), "{}: start {:?}", what, s);
                check!(within(z, *e0, *e1) && z >= s, "{}: start {:?} end {:?}", what, s, z);
            }
            (_, g) => return Err(format!("{}: stored as {:?}", what, g)),
        }
    }
    Ok(())
}

/// the child of `metadata`
pub fn child(stem: &str) {
    let p = Profiler::new(stem).unwrap();
    let k = p.alloc_string("k");
    p.record_instant_event(k, EventId::from_label(k), 1);
}

fn metadata(c: &mut Ctx) -> Result<(), String> {
    let parts = ["a", "--x=1", "\"", "\\", "'", "\n", "\t", "\r", "\u{1}", "\u{8}", "\u{c}", "\u{1f}", "\u{7f}", "é", "😀", "\u{2028}", "\u{ffff}", "/", "\\u0041", "{}", "%", " ", "$HOME", "\u{10ffff}", "n", "u{1f}", "\u{80}"];
    let n = c.rng.us(4);
    let n = if c.rng.chance(1, 12) { 100 + c.rng.us(400) } else { n };
    let args: Vec<String> = (0..n).map(|_| { let k = if n < 10 && c.rng.chance(1, 12) { c.rng.us(8000) } else { c.rng.us(4) }; (0..k).map(|_| *c.rng.pick(&parts)).collect::<String>() }).collect();
    c.desc = format!("{} arguments {:?}", n, cut(&format!("{:?}", args), 2000));
    c.nontrivial = args.iter().any(|a| a.chars().any(|x| x < ' ' || x == '"' || x == '\\' || x as u32 > 127));
    let stem = c.dir.join("m");
    let exe = std::env::current_exe().unwrap();
    let before = std::time::SystemTime::now();
    let st = std::process::Command::new(&exe).env("VX_CHILD", &stem).args(&args).stderr(std::process::Stdio::null()).spawn().and_then(|mut x| { let id = x.id(); x.wait().map(|s| (id, s)) }).unwrap();
    check!(st.1.success(), "the profiled program failed: {:?}", st.1);
    let after = std::time::SystemTime::now();
    let d = match panics(|| ProfilingData::new(&stem).map_err(|e| e.to_string())) {
        Err(p) => return Err(format!("opening the profile panics: {}", p)),
        Ok(Err(e)) => return Err(format!("the profile cannot be opened: {}", e)),
        Ok(Ok(d)) => d,
    };
    let m = d.metadata();
    let mut want = format!("{} ", exe.display());
    for a in &args { want.push_str(a); want.push(' '); }
    check!(m.cmd == want, "command line {}, expected {}", esc(&m.cmd), esc(&want));
    check!(m.process_id == st.0, "process id {}, expected {}", m.process_id, st.0);
    check!(m.start_time >= before && m.start_time <= after, "start time {:?} not in {:?}..{:?}", m.start_time, before, after);
    // and the counter's description is valid JSON of the documented form
    let f = std::fs::read(stem.with_extension("mm_profdata")).unwrap();
    let pages = crate::sink::pages(&f[8..], usize::MAX)?;
    let text: Vec<u8> = pages.iter().filter(|p| p.0 == 1).flat_map(|p| p.1.clone()).collect();
    let (a, b) = (text.iter().position(|x| *x == b'{').unwrap_or(0), text.iter().position(|x| *x == 0xFF).unwrap_or(0));
    let v: serde_json::Value = serde_json::from_slice(&text[a..b]).map_err(|e| format!("the metadata is not JSON: {}", e))?;
    let u = v["counter"]["units"].as_array().map(|u| u.iter().map(|x| (x[0].as_str().map(|s| s.to_string()), x[1].as_u64())).collect::<Vec<_>>());
    check!(v["counter"]["name"].as_str() == Some("wall-time"), "counter {}", v["counter"]);
    check!(u == Some(vec![(Some("ns".into()), Some(1)), (Some("μs".into()), Some(1000)), (Some("ms".into()), Some(1000000)), (Some("s".into()), Some(1000000000))]), "counter {}", v["counter"]);
    Ok(())
}
