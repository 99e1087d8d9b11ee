//! C11, C12, C13: opening profiles, iterating them, and old files
use crate::common::*;
use crate::mk;
use analyzeme::ProfilingData;
use decodeme::event::Event;
use decodeme::event_payload::{EventPayload, Timestamp};
use decodeme::lightweight_event::LightweightEvent;
use measureme::file_header as fh;
use std::time::{Duration, UNIX_EPOCH};

pub const CASES: &[(&str, &str, Case)] = &[
    ("C11", "random and nearly right headers for every stream kind, through verify_file_header, read_file_header and the writer", headers),
    ("C11", "profile files of version 8, 9 and others with each stream header or the top-level header altered, through ProfilingData and EventDecoder", open),
    ("C12", "random profiles and random histories of next / next_back / nth / len / size_hint and the std adaptors, light-weight and full", iterate),
    ("C13", "random version 8 profiles built byte by byte; all fields of events and metadata distinct", old),
];

const MAGICS: [&[u8; 4]; 4] = [fh::FILE_MAGIC_TOP_LEVEL, fh::FILE_MAGIC_EVENT_STREAM, fh::FILE_MAGIC_STRINGTABLE_DATA, fh::FILE_MAGIC_STRINGTABLE_INDEX];
const WANT: [&[u8; 4]; 4] = [b"MMPD", b"MMES", b"MMSD", b"MMSI"];

fn version(c: &mut Ctx) -> u32 {
    match c.rng.below(8) {
        0..=2 => 9,
        3 => 8,
        4 => 9u32.swap_bytes(),
        5 => 9 | (1 << c.rng.below(32)),
        6 => c.rng.below(12) as u32,
        _ => c.rng.next() as u32,
    }
}

fn headers(c: &mut Ctx) -> Result<(), String> {
    for _ in 0..60 {
        let mut b = mk::header(*c.rng.pick(&WANT), version(c));
        if c.rng.chance(1, 4) { let i = c.rng.us(4); b[i] ^= 1 << c.rng.below(8); }
        if c.rng.chance(1, 4) { b.truncate(c.rng.us(9)); }
        if c.rng.bool() { let n = c.rng.us(20); let x = c.rng.bytes(n); b.extend_from_slice(&x); }
        let k = c.rng.us(4);
        c.desc = format!("{:?} as {:?}", b, WANT[k]);
        check!(MAGICS[k] == WANT[k], "magic of stream kind {} is {:?}", k, MAGICS[k]);
        let right = b.len() >= 8 && &b[..4] == WANT[k];
        let ver = if right { u32::from_le_bytes([b[4], b[5], b[6], b[7]]) } else { 0 };
        let path = std::path::Path::new("some/file");
        let p = if c.rng.bool() { Some(path) } else { None };
        let r = panics(|| fh::verify_file_header(&b, MAGICS[k], p, "tag").is_ok());
        check!(r == Ok(right && ver == 9), "{}: verify_file_header gives {:?}", c.desc, r);
        let r = panics(|| decodeme::read_file_header(&b, MAGICS[k], p, "tag").ok());
        check!(r == Ok(if right { Some(ver) } else { None }), "{}: read_file_header gives {:?}", c.desc, r);
        if b.len() >= 8 { check!(fh::strip_file_header(&b) == &b[8..], "{}: strip_file_header gives {:?}", c.desc, fh::strip_file_header(&b)); }
    }
    for k in 0..4 {
        let mut v = c.rng.bytes(3);
        let n = v.len();
        fh::write_file_header(&mut v, MAGICS[k]).map_err(|e| e.to_string())?;
        check!(v[n..] == mk::header(WANT[k], 9)[..], "header written for {:?} is {:?}", WANT[k], v);
        for j in 0..4 {
            c.desc = format!("written header of kind {} checked as kind {}", k, j);
            check!(fh::verify_file_header(&v[n..], MAGICS[j], None, "t").is_ok() == (j == k), "{}", c.desc);
        }
    }
    c.nontrivial = true;
    Ok(())
}

fn open(c: &mut Ctx) -> Result<(), String> {
    for _ in 0..12 {
        let old = c.rng.chance(1, 3);
        let t0 = c.rng.next() >> 20;
        let (mut top, mut streams, own) = if old {
            let mut f = mk::File8::new(t0, 1, "c");
            let s = f.string("x") as u64;
            f.event(mk::Ev { kind: s, id: s, tid: 1, p1: 2, p2: 3 });
            (mk::header(b"MMPD", 8), vec![f.events, f.data, f.index], 8)
        } else {
            let mut f = mk::File::new(t0, 1, "c");
            let s = f.string("x");
            f.event(mk::Ev { kind: s, id: s, tid: 1, p1: 2, p2: 3 });
            (mk::header(b"MMPD", 9), vec![f.events, f.data, f.index], 9)
        };
        let mut good = true;
        let what = c.rng.below(6);
        match what {
            0 => {}
            1 => { let v = version(c); if v != own && (v == 8 || v == 9) { continue; } good = v == own; top[4..8].copy_from_slice(&v.to_le_bytes()); }
            2 => { let i = c.rng.us(4); top[i] ^= 1 << c.rng.below(8); good = false; }
            3 => { let s = c.rng.us(3); let v = version(c); good = v == own; streams[s][4..8].copy_from_slice(&v.to_le_bytes()); }
            4 => { let s = c.rng.us(3); let i = c.rng.us(4); streams[s][i] ^= 1 << c.rng.below(8); good = false; }
            _ => {
                // wrong kind of stream
                let s = c.rng.us(3);
                let w = [b"MMPD", b"MMES", b"MMSD", b"MMSI"][c.rng.us(4)];
                good = streams[s][..4] == w[..];
                streams[s][..4].copy_from_slice(w);
            }
        }
        let missing = if !old && c.rng.chance(1, 8) { Some(c.rng.us(3)) } else { None };
        let mut file = top.clone();
        for (tag, s) in streams.iter().enumerate() {
            if missing == Some(tag) { continue; }
            file.push(tag as u8);
            file.extend_from_slice(&(s.len() as u32).to_le_bytes());
            file.extend_from_slice(s);
        }
        if what == 2 && c.rng.bool() { file.truncate(c.rng.us(8)); }
        good &= missing.is_none();
        c.desc = format!("file of version {}, alteration {}, missing stream {:?}: {:?}", own, what, missing, file);
        let f2 = file.clone();
        let r = panics(move || match ProfilingData::from_paged_buffer(f2, None) {
            Ok(p) => { let e = p.iter_full().next().unwrap(); Some((p.num_events(), e.label.to_string(), e.thread_id, p.metadata().start_time)) }
            Err(_) => None,
        });
        let want = if good { Some((1, "x".to_string(), 1, UNIX_EPOCH + Duration::from_nanos(t0))) } else { None };
        check!(r == Ok(want.clone()), "{}: opening gives {:?}, should be {:?}", cut(&c.desc, 600), r, want);
        if own == 9 {
            let r = panics(move || decodeme::EventDecoder::new(file, None).is_ok());
            check!(r == Ok(good), "{}: EventDecoder::new gives {:?}", cut(&c.desc, 600), r);
            if missing.is_none() {
                let good = streams[0][..8] == mk::header(b"MMES", 9)[..] && streams[1][..8] == mk::header(b"MMSD", 9)[..] && streams[2][..8] == mk::header(b"MMSI", 9)[..];
                let r = panics(move || decodeme::EventDecoder::from_separate_buffers(streams[1].clone(), streams[2].clone(), streams[0].clone(), None).is_ok());
                check!(r == Ok(good), "{}: from_separate_buffers gives {:?}", cut(&c.desc, 600), r);
            }
        }
        c.nontrivial = true;
    }
    Ok(())
}

fn payload(t0: u64, p1: u64, p2: u64) -> EventPayload {
    let at = |n: u64| UNIX_EPOCH + Duration::from_nanos(t0) + Duration::from_nanos(n);
    if p2 == mk::INTEGER { EventPayload::Integer(p1) }
    else if p2 == mk::INSTANT { EventPayload::Timestamp(Timestamp::Instant(at(p1))) }
    else { EventPayload::Timestamp(Timestamp::Interval { start: at(p1), end: at(p2) }) }
}

/// payload words: any kind
fn words(c: &mut Ctx) -> (u64, u64) {
    let a = c.rng.next() >> (16 + c.rng.below(48));
    match c.rng.below(4) {
        0 => (a, mk::INSTANT),
        1 => (a, mk::INTEGER),
        _ => (a, (a + (c.rng.next() >> (17 + c.rng.below(47)))).min(mk::INTEGER - 1).max(a)),
    }
}

fn iterate(c: &mut Ctx) -> Result<(), String> {
    let t0 = c.rng.next() >> (1 + c.rng.below(60));
    let n = if c.rng.chance(1, 100) { 250 + c.rng.us(800) } else { c.rng.us(2 + c.size.min(60)) };
    let mut f = mk::File::new(t0, 7, "x");
    let ids: Vec<u64> = (0..5).map(|i| f.string(&format!("s{}", i))).collect();
    let mut want = vec![];
    for i in 0..n {
        let (k, l, (p1, p2), tid) = (c.rng.us(5), c.rng.us(5), words(c), c.rng.next() as u32);
        f.event(mk::Ev { kind: ids[k], id: ids[l], tid, p1, p2 });
        want.push((
            LightweightEvent { event_index: i, thread_id: tid, payload: payload(t0, p1, p2) },
            Event { event_kind: format!("s{}", k).into(), label: format!("s{}", l).into(), additional_data: vec![], payload: payload(t0, p1, p2), thread_id: tid },
        ));
    }
    let p = f.profile();
    check!(p.num_events() == n, "{} events, num_events says {}", n, p.num_events());
    for full in [false, true] {
        let (mut a, mut b) = (0, n);
        let mut hist = String::new();
        let mut light = p.iter();
        let mut fulls = p.iter_full();
        for _ in 0..((n + 4) * 2).min(400) {
            let (lo, hi) = if full { fulls.size_hint() } else { light.size_hint() };
            let len = if full { fulls.len() } else { light.len() };
            check!(lo == b - a && hi == Some(lo) && len == lo, "{} events, full {}, after {}: size hint {:?} {:?} len {}, {} left", n, full, hist, lo, hi, len, b - a);
            let front = c.rng.bool();
            let skip = if c.rng.chance(1, 4) { c.rng.us(4) } else { 0 };
            hist += &format!("{}{} ", if front { "next" } else { "next_back" }, if skip > 0 { format!("+{}", skip) } else { String::new() });
            let got: Option<(Option<LightweightEvent>, Option<Event>)> = panics(|| if full {
                (None, if front { if skip > 0 { fulls.nth(skip) } else { fulls.next() } } else { if skip > 0 { fulls.nth_back(skip) } else { fulls.next_back() } })
            } else {
                (if front { if skip > 0 { light.nth(skip) } else { light.next() } } else { if skip > 0 { light.nth_back(skip) } else { light.next_back() } }, None)
            }).map(Some).map_err(|e| format!("{} events, full {}, {}: panic {}", n, full, hist, e))?;
            let exp = if b - a <= skip { None } else if front { Some(a + skip) } else { Some(b - 1 - skip) };
            if front { a = (a + skip + 1).min(b); } else { b = b.saturating_sub(skip + 1).max(a); }
            c.desc = format!("{} events, full {}, history {}", n, full, hist);
            let (gl, gf) = got.unwrap();
            if full {
                check!(gf.as_ref() == exp.map(|i| &want[i].1), "{}: got {:?}, should be event {:?}", c.desc, gf, exp);
            } else {
                check!(gl.as_ref() == exp.map(|i| &want[i].0), "{}: got {:?}, should be event {:?}", c.desc, gl, exp);
                if let Some(e) = gl { check!(p.to_full_event(&e) == want[e.event_index].1, "{}: to_full_event gives {:?}", c.desc, p.to_full_event(&e)); }
            }
        }
    }
    // the rest after any history, through the other methods
    for _ in 0..12 {
        let mut it = p.iter();
        let (mut a, mut b) = (0, n);
        let mut hist = String::new();
        for _ in 0..c.rng.us(n + 2) {
            let front = c.rng.bool();
            hist += if front { "next " } else { "next_back " };
            if front { it.next(); } else { it.next_back(); }
            if a < b { if front { a += 1; } else { b -= 1; } }
        }
        let m = c.rng.us(12);
        let ix = |e: LightweightEvent| e.event_index;
        let k = c.rng.us(n + 2);
        let (got, exp): (Vec<usize>, Vec<usize>) = panics(|| match m {
            0 => (it.last().map(ix).into_iter().collect(), (a..b).last().into_iter().collect()),
            1 => (vec![it.count()], vec![b - a]),
            2 => (it.map(ix).collect(), (a..b).collect()),
            3 => (it.rev().map(ix).collect(), (a..b).rev().collect()),
            4 => (it.fold(vec![], |mut v, e| { v.push(e.event_index); v }), (a..b).collect()),
            5 => (it.rfold(vec![], |mut v, e| { v.push(e.event_index); v }), (a..b).rev().collect()),
            6 => (it.skip(k).map(ix).collect(), (a..b).skip(k).collect()),
            7 => (it.step_by(k + 1).map(ix).collect(), (a..b).step_by(k + 1).collect()),
            8 => { let x = it.find(|e| e.event_index % 3 == k % 3).map(ix); let mut r = a..b; let y = r.find(|e| e % 3 == k % 3); (x.into_iter().chain(it.map(ix)).collect(), y.into_iter().chain(r).collect()) }
            9 => { let x = it.rfind(|e| e.event_index % 3 == k % 3).map(ix); let mut r = a..b; let y = r.rfind(|e| e % 3 == k % 3); (x.into_iter().chain(it.map(ix)).collect(), y.into_iter().chain(r).collect()) }
            10 => (it.take(k).map(ix).collect(), (a..b).take(k).collect()),
            _ => (it.min_by_key(|e| std::cmp::Reverse(e.event_index)).map(ix).into_iter().collect(), (a..b).max().into_iter().collect()),
        }).map_err(|e| format!("{} events, {}, method {}: panic {}", n, hist, m, e))?;
        check!(got == exp, "{} events, after {}: method {} with {} gives events {:?}, should be {:?}", n, hist, ["last", "count", "collect", "rev", "fold", "rfold", "skip", "step_by", "find", "rfind", "take", "min_by_key"][m], k, got, exp);
        let mut it = p.iter_full();
        for i in 0..a { check!(it.next().map(|e| e.thread_id) == Some(want[i].1.thread_id), "{} events: full event {}", n, i); }
        for i in (b..n).rev() { check!(it.next_back().map(|e| e.thread_id) == Some(want[i].1.thread_id), "{} events: full event {}", n, i); }
        let back = c.rng.bool();
        let got: Vec<u32> = match m { 0 => it.last().into_iter().map(|e| e.thread_id).collect(), 1 => vec![it.count() as u32], _ if back => it.rev().map(|e| e.thread_id).collect(), _ => it.map(|e| e.thread_id).collect() };
        let mut exp: Vec<u32> = want[a..b].iter().map(|w| w.1.thread_id).collect();
        match m { 0 => exp = exp.last().copied().into_iter().collect(), 1 => exp = vec![exp.len() as u32], _ if back => exp.reverse(), _ => {} }
        check!(got == exp, "{} events, full, {} from the front, {} from the back: threads {:?}, should be {:?}", n, a, n - b, got, exp);
    }
    let l: Vec<_> = want.iter().map(|w| w.0.clone()).collect();
    let mut lr = l.clone();
    lr.reverse();
    c.desc = format!("{:?}", l);
    check!(p.iter().collect::<Vec<_>>() == l, "forward iteration of {} events", n);
    check!(p.iter().rev().collect::<Vec<_>>() == lr, "backward iteration of {} events", n);
    check!(p.iter().count() == n && p.iter().last().as_ref() == l.last(), "count and last of {} events", n);
    check!(p.iter().fold(vec![], |mut a, e| { a.push(e.event_index); a }) == (0..n).collect::<Vec<_>>(), "fold of {} events", n);
    check!(p.iter_full().map(|e| e.thread_id).collect::<Vec<_>>() == want.iter().map(|w| w.1.thread_id).collect::<Vec<_>>(), "full iteration of {} events", n);
    let k = 1 + c.rng.us(4);
    check!(p.iter().step_by(k).collect::<Vec<_>>() == l.iter().cloned().step_by(k).collect::<Vec<_>>(), "step_by {} of {} events", k, n);
    c.nontrivial = n > 1;
    Ok(())
}

fn old(c: &mut Ctx) -> Result<(), String> {
    let t0 = c.rng.next() >> (1 + c.rng.below(60));
    let pid = c.rng.next() as u32;
    // as JSON text
    let cmd: String = (0..c.rng.us(20)).map(|_| match c.rng.below(12) { 0 | 1 => ' ', 2 => 'é', 3 => '\u{7f}', 4 => '/', _ => (b'a' + c.rng.below(26) as u8) as char }).collect();
    let n = 1 + c.rng.us(12);
    let mut f = mk::File8::new(t0, pid, &cmd);
    let virt = c.rng.below(100_000_001) as u32;
    let vs = f.string("virtual");
    f.map(virt, vs - mk::FIRST as u32);
    let mut want = vec![];
    // texts with white space around, repeated, of any length
    let plain = c.rng.bool();
    let word = |c: &mut Ctx, s: String| {
        if plain { return s; }
        match c.rng.us(9) { 0 => format!("{} ", s), 1 => format!(" {}", s), 2 => "same".into(), 3 => format!("{}\n", s), 4 => format!("é{}😀", s), 5 => "x".repeat(1 + c.rng.us(600)), 6 => " ".into(), _ => s }
    };
    for i in 0..n {
        let kind_text = word(c, format!("kind{}", i));
        let kind = f.string(&kind_text) as u64;
        let nargs = c.rng.us(4);
        let args: Vec<String> = (0..nargs).map(|j| word(c, format!("arg{}-{}", i, j))).collect();
        let label = word(c, format!("label{}", i));
        let mut text = label.clone();
        for a in &args { text.push('\x1e'); text += a; }
        let isv = c.rng.chance(1, 4);
        let id = if isv { virt } else { f.string(&text) } as u64;
        let ((p1, p2), tid) = (words(c), c.rng.next() as u32);
        f.event(mk::Ev { kind, id, tid, p1, p2 });
        want.push(Event {
            event_kind: kind_text.into(),
            label: if isv { "virtual".into() } else { label.into() },
            additional_data: if isv { vec![] } else { args.into_iter().map(|a| a.into()).collect() },
            payload: payload(t0, p1, p2), thread_id: tid,
        });
    }
    let page = 1 + c.rng.us(300);
    c.desc = format!("version 8 file: start {} pid {} cmd {:?} events {:?}", t0, pid, cmd, want);
    let p = ProfilingData::from_paged_buffer(f.bytes(page), None).map_err(|e| format!("{}: {}", c.desc, e))?;
    check!(p.num_events() == n, "{}: num_events {}", c.desc, p.num_events());
    for _ in 0..2 {
        let m = p.metadata();
        check!(m.start_time == UNIX_EPOCH + Duration::from_nanos(t0) && m.process_id == pid && m.cmd == cmd, "{}: metadata {:?}", c.desc, m);
    }
    for (i, e) in p.iter().enumerate() {
        let w = LightweightEvent { event_index: i, thread_id: want[i].thread_id, payload: want[i].payload.clone() };
        check!(e == w, "{}: event {} is {:?}, should be {:?}", cut(&c.desc, 600), i, e, w);
    }
    for (i, e) in p.iter_full().enumerate() {
        check!(e == want[i], "{}: event {} is {:?}, should be {:?}", cut(&c.desc, 600), i, e, want[i]);
    }
    c.nontrivial = true;
    Ok(())
}
