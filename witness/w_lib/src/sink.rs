//! C01 - C04: the paged container
use crate::common::*;
use measureme::{split_streams, Addr, PageTag, SerializationSink, SerializationSinkBuilder};
use std::io::Write;
use std::sync::Arc;
use std::time::Duration;

const MAX: usize = 256 * 1024;
const TAGS: [PageTag; 3] = [PageTag::Events, PageTag::StringData, PageTag::StringIndex];

pub const CASES: &[(&str, &str, Case)] = &[
    ("C01", "random mixes of write_atomic/write_bytes_atomic/io::Write/flush on up to three sinks of one store, read back; non-trivial: more than one write", single),
    ("C01", "the same with concurrent writers", threads),
    ("C02", "concurrent writers on shared sinks of one file; every returned address is checked against the final stream; non-trivial: at least two threads", threads),
    ("C02", "sequential mixes of writes; addresses checked", single),
    ("C02", "sequential mixes of writes some of whose callbacks panic; the addresses of all others are checked against the final stream", aborted),
    ("C03", "the backing file is parsed as pages after every operation; non-trivial: more than one page", single),
    ("C03", "the backing file is parsed as pages after concurrent writes", threads),
    ("C04", "random page sequences and damaged page sequences against an independent parser; non-trivial: at least two pages or damaged", split),
];

fn size(c: &mut Ctx) -> usize {
    let big = c.size > 3;
    match c.rng.below(if big { 14 } else { 6 }) {
        0 => 0,
        1 => 1 + c.rng.us(8),
        2 => c.rng.us(200),
        3 => 126 + c.rng.us(5),
        4 => c.rng.us(5000),
        5 => 1,
        6 => MAX / 2 - 2 + c.rng.us(5),
        7 => MAX - 2 + c.rng.us(5),
        8 => MAX + 1 + c.rng.us(MAX),
        9 => MAX / 2 + c.rng.us(MAX / 2),
        10 => c.rng.us(MAX),
        11 => 2 * MAX + c.rng.us(3),
        12 => 128,
        13 if c.rng.chance(1, 12) => 4 * MAX + c.rng.us(20 * MAX),
        _ => c.rng.us(3 * MAX),
    }
}

/// Independent parser of the container format: (tag, content) per page, or what is wrong.
pub fn pages(b: &[u8], max: usize) -> Result<Vec<(u8, Vec<u8>)>, String> {
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        if b.len() - p < 5 { return Err(format!("truncated page header at {}", p)); }
        let tag = b[p];
        let n = b[p + 1] as usize + 256 * (b[p + 2] as usize) + 65536 * (b[p + 3] as usize) + 16777216 * (b[p + 4] as usize);
        if tag > 2 { return Err(format!("page tag {} at {}", tag, p)); }
        if n == 0 { return Err(format!("empty page at {}", p)); }
        if n > max { return Err(format!("page of {} bytes at {}", n, p)); }
        if b.len() - p - 5 < n { return Err(format!("page at {} cut short", p)); }
        out.push((tag, b[p + 5..p + 5 + n].to_vec()));
        p += 5 + n;
    }
    Ok(out)
}

fn stream(p: &[(u8, Vec<u8>)], tag: u8) -> Vec<u8> {
    p.iter().filter(|x| x.0 == tag).flat_map(|x| x.1.iter().copied()).collect()
}

fn write(sink: &SerializationSink, kind: u64, data: &[u8]) -> Option<Addr> {
    match kind {
        0 => Some(sink.write_atomic(data.len(), |d| {
            assert_eq!(d.len(), data.len(), "callback buffer has the wrong length");
            d.copy_from_slice(data)
        })),
        1 => Some(sink.write_bytes_atomic(data)),
        2 => {
            let n = sink.as_std_write().write(data).unwrap();
            assert_eq!(n, data.len(), "io::Write reported a short write");
            None
        }
        _ => {
            sink.as_std_write().write_all(data).unwrap();
            None
        }
    }
}

fn single(c: &mut Ctx) -> Result<(), String> {
    let max = if c.prop == "C03" { MAX } else { u32::MAX as usize };
    let in_memory = c.rng.chance(1, 3);
    let path = c.dir.join(format!("s{}", c.idx % 4));
    let builder = if in_memory {
        SerializationSinkBuilder::new_in_memory()
    } else {
        SerializationSinkBuilder::new_from_file(std::fs::File::create(&path).unwrap()).map_err(|e| e.to_string())?
    };
    let nsinks = 1 + c.rng.us(3);
    let mut sinks: Vec<Option<SerializationSink>> = (0..nsinks).map(|i| Some(builder.new_sink(TAGS[i]))).collect();
    let mut want: Vec<Vec<u8>> = vec![vec![]; nsinks];
    let nops = 1 + c.rng.us(2 + c.size.min(14));
    c.nontrivial = nops > 1;
    for _ in 0..nops {
        let s = c.rng.us(nsinks);
        if sinks[s].is_none() { continue; }
        let op = c.rng.below(20);
        if op == 19 && !in_memory {
            let sink = sinks[s].take();
            if c.rng.chance(1, 3) {
                // the owner of the sink panics
                c.desc += &format!("unwind({}) ", s);
                let _ = panics(move || { let _sink = sink; if nops > 0 { panic!("owner") } });
            } else {
                c.desc += &format!("drop({}) ", s);
                drop(sink);
            }
        } else if op >= 17 {
            c.desc += &format!("flush({}) ", s);
            sinks[s].as_ref().unwrap().as_std_write().flush().unwrap();
            if !in_memory {
                let p = pages(&std::fs::read(&path).unwrap(), max)?;
                check!(stream(&p, s as u8) == want[s], "[{}] after io::Write::flush the stream of tag {} is not completely in the file", c.desc, s);
            }
        } else {
            let kind = c.rng.below(4);
            let n = size(c);
            let data = c.rng.content(n);
            c.desc += &format!("{}({},{}) ", ["atomic", "bytes", "write", "write_all"][kind as usize], s, n);
            let a = write(sinks[s].as_ref().unwrap(), kind, &data);
            if let Some(a) = a {
                check!(c.prop != "C02" || a.0 as usize == want[s].len() && a.as_usize() == want[s].len(), "[{}] address {} returned, {} bytes written before", c.desc, a.0, want[s].len());
            }
            want[s].extend_from_slice(&data);
        }
        if !in_memory && c.rng.chance(1, 2) {
            let b = std::fs::read(&path).unwrap();
            let p = pages(&b, max).map_err(|e| format!("[{}] {}", c.desc, e))?;
            for t in 0..nsinks {
                let got = stream(&p, t as u8);
                check!(want[t].starts_with(&got), "[{}] the file holds other bytes for tag {} than were written", c.desc, t);
            }
        }
    }
    if in_memory {
        let mut order: Vec<usize> = (0..nsinks).collect();
        c.rng.shuffle(&mut order);
        for s in order {
            let got = sinks[s].take().unwrap().into_bytes();
            check!(got == want[s], "[{}] into_bytes of tag {} returns {} bytes, {} were written{}", c.desc, s, got.len(), want[s].len(), if got.len() == want[s].len() { ", contents differ" } else { "" });
        }
    } else {
        let mut order: Vec<usize> = (0..nsinks).collect();
        c.rng.shuffle(&mut order);
        for s in order { sinks[s] = None; }
        let b = std::fs::read(&path).unwrap();
        let p = pages(&b, max).map_err(|e| format!("[{}] {}", c.desc, e))?;
        let m = split_streams(&b);
        for t in 0..nsinks {
            check!(stream(&p, t as u8) == want[t], "[{}] stream of tag {} does not read back as written ({} of {} bytes)", c.desc, t, stream(&p, t as u8).len(), want[t].len());
            let got = m.get(&TAGS[t]).cloned().unwrap_or_default();
            check!(got == want[t], "[{}] split_streams of tag {} does not read back as written", c.desc, t);
        }
    }
    Ok(())
}

fn aborted(c: &mut Ctx) -> Result<(), String> {
    let sink = SerializationSinkBuilder::new_in_memory().new_sink(TAGS[c.rng.us(3)]);
    let mut want: Vec<(usize, Vec<u8>)> = vec![];
    for _ in 0..2 + c.rng.us(2 + c.size.min(10)) {
        let n = size(c);
        let data = c.rng.content(n);
        if c.rng.chance(1, 3) {
            let filled = c.rng.us(n + 1);
            c.desc += &format!("abort({} of {}) ", filled, n);
            let r = panics(|| sink.write_atomic(n, |d| { d[..filled].copy_from_slice(&data[..filled]); panic!("callback") }));
            check!(r.is_err(), "[{}] the callback was not called", c.desc);
        } else {
            let kind = c.rng.below(2);
            c.desc += &format!("{}({}) ", ["atomic", "bytes"][kind as usize], n);
            let a = write(&sink, kind, &data).unwrap();
            want.push((a.as_usize(), data));
            c.nontrivial = true;
        }
    }
    let got = sink.into_bytes();
    let mut end = 0;
    for (a, d) in want {
        check!(a >= end, "[{}] address {} lies within an earlier write, which ends at {}", c.desc, a, end);
        end = a + d.len();
        check!(end <= got.len() && got[a..end] == d[..], "[{}] {} bytes do not stand at the returned address {}", c.desc, d.len(), a);
    }
    Ok(())
}

fn threads(c: &mut Ctx) -> Result<(), String> {
    let max = if c.prop == "C03" { MAX } else { u32::MAX as usize };
    let path = c.dir.join(format!("t{}", c.idx % 4));
    let builder = SerializationSinkBuilder::new_from_file(std::fs::File::create(&path).unwrap()).map_err(|e| e.to_string())?;
    let nsinks = 1 + c.rng.us(3);
    let sinks: Vec<Arc<SerializationSink>> = (0..nsinks).map(|i| Arc::new(builder.new_sink(TAGS[i]))).collect();
    let nthreads = 2 + c.rng.us(5);
    c.nontrivial = true;
    let mut plans: Vec<Vec<(usize, u64, Vec<u8>)>> = vec![];
    for t in 0..nthreads {
        let mut v = vec![];
        let nops = if c.rng.bool() { 30 + c.rng.us(60) } else { 1 + c.rng.us(8) };
        for _ in 0..nops {
            let s = c.rng.us(nsinks);
            let kind = if c.rng.chance(1, 12) { 9 } else { c.rng.below(2) };
            let n = if nops > 20 { *c.rng.pick(&[3usize, 32, 100, 128, 129, 700, 9000, 30000]) } else { size(c) };
            v.push((s, kind, c.rng.content(n)));
        }
        c.desc += &format!("thread{}:{:?} ", t, v.iter().take(12).map(|x| (x.0, x.1, x.2.len())).collect::<Vec<_>>());
        plans.push(v);
    }
    let sinks2 = sinks.clone();
    let res = with_timeout(Duration::from_secs(30), move || {
        let barrier = Arc::new(std::sync::Barrier::new(plans.len()));
        let hs: Vec<_> = plans
            .into_iter()
            .map(|plan| {
                let sinks = sinks2.clone();
                let barrier = barrier.clone();
                std::thread::spawn(move || {
                    barrier.wait();
                    let mut out = vec![];
                    for (s, kind, data) in plan {
                        if kind == 9 {
                            sinks[s].as_std_write().flush().unwrap();
                        } else {
                            let a = write(&sinks[s], kind, &data).unwrap();
                            out.push((s, a.0 as usize, data));
                        }
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    let res = match res {
        None => {
            // keep the stuck sinks alive
            std::mem::forget(sinks);
            return Err(format!("[{}] the writers do not finish: deadlock", c.desc));
        }
        Some(r) => r?,
    };
    drop(sinks);
    let b = std::fs::read(&path).unwrap();
    let p = pages(&b, max).map_err(|e| format!("[{}] {}", c.desc, e))?;
    let mut ranges: Vec<Vec<(usize, usize)>> = vec![vec![]; nsinks];
    let streams: Vec<Vec<u8>> = (0..nsinks).map(|t| stream(&p, t as u8)).collect();
    for r in res {
        let r = r.map_err(|_| format!("[{}] a writer panicked", c.desc))?;
        for (s, a, data) in r {
            check!(a + data.len() <= streams[s].len() && streams[s][a..a + data.len()] == data[..], "[{}] {} bytes written to sink {} do not stand at the returned address {}", c.desc, data.len(), s, a);
            ranges[s].push((a, a + data.len()));
        }
    }
    for s in 0..nsinks {
        ranges[s].sort();
        let mut e = 0;
        for &(a, b) in &ranges[s] {
            check!(a == e, "[{}] sink {}: range {}..{} does not follow {}", c.desc, s, a, b, e);
            e = b;
        }
        check!(e == streams[s].len(), "[{}] sink {}: {} bytes in the stream, {} written", c.desc, s, streams[s].len(), e);
    }
    Ok(())
}

fn split(c: &mut Ctx) -> Result<(), String> {
    let mut b = vec![];
    let np = if c.rng.chance(1, 40) { 200 + c.rng.us(200) } else { c.rng.us(2 + c.size.min(10)) };
    let mut last = 0;
    for _ in 0..np {
        last = b.len();
        let n = match c.rng.below(12) {
            0 => 1 + c.rng.us(2),
            1 if np < 20 => MAX,
            2 => 255 + c.rng.us(3),
            3 if np < 20 => 65535 + c.rng.us(3),
            4 if c.size > 20 && np < 20 => MAX + c.rng.us(MAX * 70),
            _ => 1 + c.rng.us(40),
        };
        b.push(c.rng.below(3) as u8);
        b.extend_from_slice(&(n as u32).to_le_bytes());
        let d = c.rng.content(n);
        b.extend_from_slice(&d);
    }
    let mut damage = String::new();
    if c.rng.chance(1, 2) && !b.is_empty() {
        match c.rng.below(5) {
            0 => { let k = 1 + c.rng.us((b.len() - last).min(12)); b.truncate(b.len() - k); damage = format!("cut {}", k); }
            1 => { b[last] = 3 + c.rng.below(253) as u8; damage = format!("tag {}", b[last]); }
            2 => { for i in 1..5 { b[last + i] = 0; } damage = "size 0".into(); }
            3 => { let k = 1 + c.rng.us(4); let d = c.rng.bytes(k); b.extend(d.iter().map(|x| x % 3)); damage = format!("{} trailing bytes", k); }
            _ => { let i = 1 + c.rng.us(4); b[last + i] = c.rng.next() as u8; damage = format!("size byte {}", i); }
        }
    }
    c.desc = format!("{} pages, {} bytes, damage: {}; head {:?}", np, b.len(), damage, &b[..b.len().min(24)]);
    c.nontrivial = np > 1 || !damage.is_empty();
    let want = pages(&b, u32::MAX as usize);
    let got = panics(|| split_streams(&b));
    match (want, got) {
        (Ok(w), Ok(m)) => {
            for t in 0..3u8 {
                let occurs = w.iter().any(|x| x.0 == t);
                let e = m.get(&TAGS[t as usize]);
                check!(occurs == e.is_some(), "[{}] tag {} occurs: {}, entry: {}", c.desc, t, occurs, e.is_some());
                if let Some(e) = e { check!(*e == stream(&w, t), "[{}] stream of tag {} differs", c.desc, t); }
            }
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("[{}] panics on well-formed pages: {}", c.desc, e)),
        (Err(e), Ok(_)) => Err(format!("[{}] returns data although: {}", c.desc, e)),
        (Err(_), Err(_)) => Ok(()),
    }
}
