//! C07: decoded events
use crate::common::*;
use crate::mk;
use crate::raw::edge;
use decodeme::event_payload::{EventPayload, Timestamp};
use decodeme::lightweight_event::LightweightEvent;
use measureme::{EventId, RawEvent, StringId};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub const CASES: &[(&str, &str, Case)] = &[
    ("C07", "raw events with edge values decoded against a start time; pairs of payloads over a small time range compared with interval arithmetic; non-trivial: timed payloads", payloads),
    ("C07", "profiles built byte by byte and decoded in light-weight and full form", files),
];

fn at(n: i128) -> SystemTime { UNIX_EPOCH + Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32) }

/// (kind, start, end) in nanoseconds
fn rand_payload(c: &mut Ctx, base: u64) -> (EventPayload, (u8, i128, i128)) {
    let k = 6;
    match c.rng.below(5) {
        0 => { let v = c.rng.below(k); (EventPayload::Integer(v), (2, v as i128, 0)) }
        1 => { let v = (base + c.rng.below(k)) as i128; (EventPayload::Timestamp(Timestamp::Instant(at(v))), (1, v, v)) }
        _ => {
            let a = (base + c.rng.below(k)) as i128;
            let b = (base + c.rng.below(k)) as i128;
            (EventPayload::Timestamp(Timestamp::Interval { start: at(a), end: at(b) }), (0, a, b))
        }
    }
}

fn payloads(c: &mut Ctx) -> Result<(), String> {
    for _ in 0..300 {
        let t0 = c.rng.next() >> c.rng.below(64);
        let (a, b) = (edge(c) & mk::INSTANT, edge(c) & mk::INSTANT);
        let e = RawEvent { event_kind: StringId::new(1u64), event_id: EventId::from_u64(2), thread_id: 3, payload1_lower: a as u32, payload2_lower: b as u32,
            payloads_upper: (((a >> 32) as u32) << 16) | (b >> 32) as u32 };
        c.desc = format!("payload words {:#x} {:#x}, start time {}", a, b, t0);
        let p = EventPayload::from_raw_event(&e, at(t0 as i128));
        let want = if b == mk::INTEGER { EventPayload::Integer(a) } else if b == mk::INSTANT { EventPayload::Timestamp(Timestamp::Instant(at(t0 as i128 + a as i128))) }
            else { EventPayload::Timestamp(Timestamp::Interval { start: at(t0 as i128 + a as i128), end: at(t0 as i128 + b as i128) }) };
        check!(p == want, "{}: decoded as {:?}, should be {:?}", c.desc, p, want);
        check!(p.is_integer() == (b == mk::INTEGER) && p.is_instant() == (b == mk::INSTANT) && p.is_interval() == (b < mk::INTEGER), "{}: wrong kind {:?}", c.desc, p);
    }
    c.nontrivial = true;
    let base = c.rng.next() >> 20;
    for _ in 0..200 {
        let ((p, (pk, pa, pb)), (q, (qk, qa, qb))) = (rand_payload(c, base), rand_payload(c, base));
        c.desc = format!("{:?} / {:?}", p, q);
        let contains = pk == 0 && qk != 2 && pa <= qa && qb <= pb;
        let d = if pk == 0 && pa <= pb { Some(Duration::from_nanos((pb - pa) as u64)) } else { None };
        let mk_l = |p: EventPayload| LightweightEvent { event_index: 0, thread_id: 0, payload: p };
        let mk_e = |p: EventPayload| decodeme::event::Event { event_kind: "k".into(), label: "l".into(), additional_data: vec![], payload: p, thread_id: 0 };
        check!(p.contains(&q) == contains && mk_l(p).contains(&mk_l(q)) == contains && mk_e(p).contains(&mk_e(q)) == contains,
            "{}: contains is {} {} {}, should be {}", c.desc, p.contains(&q), mk_l(p).contains(&mk_l(q)), mk_e(p).contains(&mk_e(q)), contains);
        check!(p.duration() == d && mk_l(p).duration() == d && mk_e(p).duration() == d, "{}: duration is {:?}, should be {:?}", c.desc, p.duration(), d);
        let i = if pk == 2 { Some(pa as u64) } else { None };
        check!(p.integer() == i && mk_e(p).integer() == i, "{}: integer is {:?}", c.desc, p.integer());
        let (s, e) = if pk == 2 { (None, None) } else { (Some(at(pa)), Some(at(pb))) };
        check!(mk_l(p).start() == s && mk_l(p).end() == e, "{}: start {:?} end {:?}", c.desc, mk_l(p).start(), mk_l(p).end());
        check!(mk_l(p).timestamp() == p.timestamp() && p.timestamp().is_some() == (pk != 2), "{}: timestamp {:?}", c.desc, p.timestamp());
        if let Some(t) = p.timestamp() {
            check!(t.start() == at(pa) && t.end() == at(pb) && t.is_instant() == (pk == 1) && t.duration() == d, "{}: timestamp {:?}", c.desc, t);
            let x = base + c.rng.below(6);
            let inside = pk == 0 && pa <= x as i128 && (x as i128) < pb;
            check!(t.contains(at(x as i128)) == inside, "{}: contains moment {} is {}", c.desc, x, t.contains(at(x as i128)));
        }
    }
    Ok(())
}

fn files(c: &mut Ctx) -> Result<(), String> {
    let t0 = c.rng.next() >> (1 + c.rng.below(60));
    let mut f = mk::File::new(t0, 7, "x");
    let ids: Vec<u64> = (0..4).map(|i| f.string(&format!("s{}", i))).collect();
    let n = 1 + c.rng.us(12);
    let mut evs = vec![];
    for _ in 0..n {
        let (mut a, mut b) = (edge(c) & mk::INSTANT, edge(c) & mk::INSTANT);
        if b < mk::INTEGER && a > b { std::mem::swap(&mut a, &mut b); }
        let e = mk::Ev { kind: *c.rng.pick(&ids), id: *c.rng.pick(&ids), tid: c.rng.next() as u32, p1: a, p2: b };
        f.event(e);
        evs.push(e);
    }
    c.desc = format!("start time {} events {:?}", t0, evs);
    c.nontrivial = true;
    let p = f.profile();
    check!(p.num_events() == n, "{} events found", p.num_events());
    for (i, l) in p.iter().enumerate() {
        let e = evs[i];
        let full = p.to_full_event(&l);
        let t = |x: u64| at(t0 as i128 + x as i128);
        let want = if e.p2 == mk::INTEGER { EventPayload::Integer(e.p1) } else if e.p2 == mk::INSTANT { EventPayload::Timestamp(Timestamp::Instant(t(e.p1))) }
            else { EventPayload::Timestamp(Timestamp::Interval { start: t(e.p1), end: t(e.p2) }) };
        check!(l.payload == want && full.payload == want, "event {}: {:?} and {:?}, should be {:?}", i, l.payload, full.payload, want);
        check!(l.thread_id == e.tid && full.thread_id == e.tid && l.event_index == i, "event {}: {:?} {:?}", i, l, full);
    }
    Ok(())
}
