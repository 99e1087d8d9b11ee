//! C05, C06: RawEvent
use crate::common::*;
use measureme::{EventId, RawEvent, StringId, MAX_INTERVAL_VALUE, MAX_SINGLE_VALUE};

const M48: u64 = (1 << 48) - 1;

pub const CASES: &[(&str, &str, Case)] = &[
    ("C05", "events of the three kinds with values around every power of two and both markers; non-trivial: value above 2^16", pack),
    ("C06", "random and one-hot events and buffers, all lengths 0..130; non-trivial: a 32-byte buffer", layout),
];

pub fn edge(c: &mut Ctx) -> u64 {
    match c.rng.below(5) {
        0 => M48.wrapping_sub(2).wrapping_add(c.rng.below(6)),
        1 => c.rng.next() >> c.rng.below(64),
        2 => (1u64 << c.rng.below(64)).wrapping_add(c.rng.below(3)).wrapping_sub(1),
        3 => c.rng.below(4),
        _ => c.rng.next() & M48,
    }
}

fn pack(c: &mut Ctx) -> Result<(), String> {
    check!(MAX_SINGLE_VALUE == M48 && MAX_INTERVAL_VALUE == M48 - 2, "the published limits are {:x} and {:x}", MAX_SINGLE_VALUE, MAX_INTERVAL_VALUE);
    for _ in 0..2000 {
        let (k, i, t) = (edge(c), edge(c), c.rng.next() as u32);
        let (a, b) = (edge(c), edge(c));
        let (kind, id) = (StringId::new(k), EventId::from_u64(i));
        let what = c.rng.below(3);
        c.desc = format!("kind {} values {:#x} {:#x} ids {:#x} {:#x} thread {}", ["interval", "instant", "integer"][what as usize], a, b, k, i, t);
        c.nontrivial = a > 0xffff;
        let ok = match what { 0 => a <= b && b <= M48 - 2, _ => a <= M48 };
        let r = panics(|| match what {
            0 => RawEvent::new_interval(kind, id, t, a, b),
            1 => RawEvent::new_instant(kind, id, t, a),
            _ => RawEvent::new_integer(kind, id, t, a),
        });
        let e = match r {
            Err(m) => { check!(!ok, "{} is refused: {}", c.desc, m); continue; }
            Ok(e) => e,
        };
        check!(ok, "{} is accepted", c.desc);
        check!(e.event_kind.as_u64() == k && e.event_id.as_u64() == i && e.thread_id == t, "{}: ids come back as {:?}", c.desc, e);
        check!(e.is_instant() == (what == 1) && e.is_integer() == (what == 2), "{}: classified instant={} integer={}", c.desc, e.is_instant(), e.is_integer());
        if what != 2 { check!(e.start_value() == a, "{}: start comes back as {:#x}", c.desc, e.start_value()); }
        if what != 0 { check!(e.value() == a, "{}: value comes back as {:#x}", c.desc, e.value()); }
        if what == 0 { check!(e.end_value() == b, "{}: end comes back as {:#x}", c.desc, e.end_value()); }
    }
    Ok(())
}

fn u32_at(b: &[u8], i: usize) -> u32 { b[i] as u32 + ((b[i + 1] as u32) << 8) + ((b[i + 2] as u32) << 16) + ((b[i + 3] as u32) << 24) }
fn u64_at(b: &[u8], i: usize) -> u64 { u32_at(b, i) as u64 + ((u32_at(b, i + 4) as u64) << 32) }

pub fn laid_out(e: &RawEvent, b: &[u8]) -> bool {
    b.len() == 32 && u64_at(b, 0) == e.event_kind.as_u64() && u64_at(b, 8) == e.event_id.as_u64() && u32_at(b, 16) == e.thread_id
        && u32_at(b, 20) == e.payload1_lower && u32_at(b, 24) == e.payload2_lower && u32_at(b, 28) == e.payloads_upper
}

fn layout(c: &mut Ctx) -> Result<(), String> {
    for n in 0..300usize {
        let e = if n % 3 == 0 {
            let mut w = [0u32; 8];
            w[c.rng.us(8)] = 1 << c.rng.below(32);
            RawEvent { event_kind: StringId::new(w[0] as u64 | (w[1] as u64) << 32), event_id: EventId::from_u64(w[2] as u64 | (w[3] as u64) << 32),
                thread_id: w[4], payload1_lower: w[5], payload2_lower: w[6], payloads_upper: w[7] }
        } else {
            RawEvent { event_kind: StringId::new(c.rng.next()), event_id: EventId::from_u64(c.rng.next()), thread_id: c.rng.next() as u32,
                payload1_lower: c.rng.next() as u32, payload2_lower: c.rng.next() as u32, payloads_upper: c.rng.next() as u32 }
        };
        let len = if c.rng.chance(1, 3) { c.rng.us(130) } else { 32 };
        let mut b = c.rng.bytes(len);
        let before = b.clone();
        c.desc = format!("{:?} buffer of {} bytes", e, len);
        c.nontrivial = len == 32;
        let r = panics(|| e.serialize(&mut b));
        check!(r.is_ok() == (len == 32), "serializing into {} bytes: {:?}", len, r);
        if r.is_ok() { check!(laid_out(&e, &b), "{:?} is written as {:?}", e, b); }
        let r = panics(|| RawEvent::deserialize(&before));
        check!(r.is_ok() == (len == 32), "deserializing {} bytes: {:?}", len, r);
        if let Ok(f) = r { check!(laid_out(&f, &before), "{:?} is read as {:?}", before, f); }
    }
    Ok(())
}
