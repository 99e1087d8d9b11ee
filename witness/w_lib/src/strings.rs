//! C08, C09: string table
use crate::common::*;
use crate::mk;
use decodeme::stringtable::StringTable;
use measureme::{PageTag, SerializationSinkBuilder, StringComponent, StringId, StringTableBuilder};
use std::collections::HashMap;
use std::sync::Arc;

pub const CASES: &[(&str, &str, Case)] = &[
    ("C08", "random plain and composite strings (nested references, references to virtual, unmapped and invalid ids, multi-byte text) written by StringTableBuilder and read back both ways", strings),
    ("C08", "composite strings whose length equals their own address, stored bytes laid out by hand", layouts),
    ("C08", "long texts around the buffer limits", long),
    ("C09", "random sequences of alloc, map, bulk map and alloc_metadata with repeated ids, read back against a map", mappings),
    ("C09", "id ranges and conversions at edge values, mapping of forbidden ids", ids),
];

pub const UNKNOWN: &str = "<unknown>";

struct W { b: Option<StringTableBuilder>, d: Option<Arc<measureme::SerializationSink>>, i: Option<Arc<measureme::SerializationSink>> }
impl W {
    fn new() -> W {
        let sb = SerializationSinkBuilder::new_in_memory();
        let (d, i) = (Arc::new(sb.new_sink(PageTag::StringData)), Arc::new(sb.new_sink(PageTag::StringIndex)));
        W { b: Some(StringTableBuilder::new(d.clone(), i.clone()).unwrap()), d: Some(d), i: Some(i) }
    }
    fn b(&self) -> &StringTableBuilder { self.b.as_ref().unwrap() }
    fn table(&mut self) -> StringTable {
        self.b = None;
        let d = Arc::try_unwrap(self.d.take().unwrap()).unwrap_or_else(|_| panic!("sink still shared")).into_bytes();
        let i = Arc::try_unwrap(self.i.take().unwrap()).unwrap_or_else(|_| panic!("sink still shared")).into_bytes();
        StringTable::new(d, i, None).unwrap()
    }
}

pub fn text(c: &mut Ctx) -> String {
    let alphabet = ["a", "b", "zz", "ä", "€", "😀", " ", "\n", "\u{1e}", "\u{0}", "\u{7f}", "\u{ff}", "\u{fe}", "ÿ", "\u{10ffff}", "\\", "\""];
    let n = c.rng.us(6);
    let mut s = String::new();
    for _ in 0..n { s.push_str(*c.rng.pick(&alphabet)); }
    if c.rng.chance(1, 6) { s.push_str(&"x".repeat(c.rng.us(300))); }
    if c.rng.chance(1, 150) { s.push_str(&c.rng.pick(&["€", "😀", "é"]).repeat(c.rng.us(6000))); }
    s
}

fn both(t: &StringTable, id: StringId, want: &str, what: &str) -> Result<(), String> {
    let r = t.get(id);
    let s = panics(|| r.to_string().into_owned()).map_err(|e| format!("{}: to_string panics: {}", what, e))?;
    check!(s == want, "{}: to_string gives {:?}, should be {:?}", what, s, want);
    let mut w = String::from("pre");
    panics(|| r.write_to_string(&mut w)).map_err(|e| format!("{}: write_to_string panics: {}", what, e))?;
    check!(w == format!("pre{}", want), "{}: write_to_string appends {:?}, should be {:?}", what, &w, want);
    Ok(())
}

fn alloc_pieces(b: &StringTableBuilder, p: &[StringComponent<'_>], slice: bool) -> StringId {
    macro_rules! arr { ($($n:tt),*) => { match p.len() { $($n if !slice => { let a: &[StringComponent<'_>; $n] = p.try_into().unwrap(); b.alloc(a) })* _ => b.alloc(p) } } }
    arr!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
}

fn strings(c: &mut Ctx) -> Result<(), String> {
    let mut w = W::new();
    let n = 1 + c.rng.us(2 + c.size.min(30));
    let mut known: Vec<(StringId, String)> = vec![(StringId::INVALID, UNKNOWN.into()), (StringId::new(7u64), UNKNOWN.into()), (StringId::new(mk::META), UNKNOWN.into())];
    // a virtual id that is mapped before or after its use
    let v = StringId::new_virtual(c.rng.below(100_000_001));
    let late = c.rng.bool();
    let vt = text(c);
    let vid = w.b().alloc(vt.as_str());
    if !late { w.b().map_virtual_to_concrete_string(v, vid); }
    if v.as_u64() != 7 { known.push((v, vt.clone())); }
    known.push((vid, vt));
    let mut ops = String::new();
    for _ in 0..n {
        if c.rng.bool() {
            let s = text(c);
            let id = w.b().alloc(s.as_str());
            ops.push_str(&format!("alloc({:?}) ", cut(&s, 12)));
            known.push((id, s));
        } else {
            let k = if c.rng.chance(1, 10) { c.rng.us(20) } else if c.rng.chance(1, 80) { 250 + c.rng.us(300) } else { c.rng.us(5) };
            let mut parts: Vec<(Option<StringId>, String)> = vec![];
            for _ in 0..k {
                if c.rng.bool() { parts.push((None, text(c))); } else { let x = c.rng.pick(&known).clone(); parts.push((Some(x.0), x.1)); }
            }
            let total: usize = parts.iter().map(|p| p.1.len()).sum();
            if total > 50_000 { continue; }
            let pieces: Vec<StringComponent<'_>> = parts.iter().map(|p| match p.0 { Some(id) => StringComponent::Ref(id), None => StringComponent::Value(&p.1) }).collect();
            let id = alloc_pieces(w.b(), &pieces, c.rng.chance(1, 4));
            ops.push_str(&format!("alloc([{}]) ", parts.iter().map(|p| match p.0 { Some(i) => format!("ref {}", i.as_u64()), None => format!("{:?}", cut(&p.1, 8)) }).collect::<Vec<_>>().join(", ")));
            known.push((id, parts.iter().map(|p| p.1.as_str()).collect()));
        }
    }
    if late { w.b().map_virtual_to_concrete_string(v, vid); }
    c.desc = ops;
    c.nontrivial = n > 2;
    let t = w.table();
    for (id, s) in &known { both(&t, *id, s, &format!("{} string {}", c.desc, id.as_u64()))?; }
    Ok(())
}

fn layouts(c: &mut Ctx) -> Result<(), String> {
    // a composite [reference, text] stored at address P with (P - 9 .. P + 9) bytes of text, and bytes 0xFF inside reference ids
    let mut f = mk::File { data: mk::header(b"MMSD", 9), index: mk::header(b"MMSI", 9), events: vec![] };
    let mut want: Vec<(u64, String)> = vec![];
    let first_composite = c.rng.bool();
    let r0 = f.data.len() as u64;
    if !first_composite { let s = "t".repeat(c.rng.us(40)); want.push((f.string(&s), s)); }
    for _ in 0..1 + c.rng.us(4) {
        let p = f.data.len();
        let n = match c.rng.below(3) { 0 => p, 1 => (p + c.rng.us(19)).saturating_sub(9), _ => c.rng.us(p + 12) };
        let s: String = "v".repeat(n);
        let (r, rt) = if want.is_empty() || c.rng.chance(1, 4) { (*c.rng.pick(&[255u64, 0xFEFE, 65535, 0xFF_00FF, mk::INVALID]), UNKNOWN.to_string()) } else { c.rng.pick(&want).clone() };
        let (id, t) = match c.rng.below(4) {
            0 => (f.composite(&[Err(r)]), rt),
            1 => (f.composite(&[Err(r), Err(r)]), format!("{}{}", rt, rt)),
            2 => (f.composite(&[Ok(&s), Err(r)]), format!("{}{}", s, rt)),
            _ => (f.composite(&[Err(r), Ok(&s)]), format!("{}{}", rt, s)),
        };
        if t.len() < 20_000 { want.push((id, t)); }
    }
    f.map(123, r0);
    c.desc = format!("string data {:?}", cut(&format!("{:02x?}", f.data), 200));
    c.nontrivial = true;
    let t = StringTable::new(f.data.clone(), f.index.clone(), None).unwrap();
    for (id, s) in &want { both(&t, StringId::new(*id), s, &format!("string at address {}", id - mk::FIRST))?; }
    if let Some((_, s)) = want.first() { both(&t, StringId::new(123u64), s, "mapped string")?; }
    Ok(())
}

fn long(c: &mut Ctx) -> Result<(), String> {
    let mut w = W::new();
    let n = match c.rng.below(4) { 0 => 127 + c.rng.us(4), 1 => 262_130 + c.rng.us(30), 2 => 400_000 + c.rng.us(1000), _ => c.rng.us(5000) };
    let mut s = String::new();
    match c.rng.us(3) {
        0 => s = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect(),
        // multi-byte characters across every offset
        1 => { let k = ["€", "é", "😀"][c.rng.us(3)]; s.push_str(&"x".repeat(c.rng.us(4))); while s.len() < n { s.push_str(k); } }
        _ => { let mut i = c.rng.us(100) as u32; while s.len() < n { i += 1; s.push(char::from_u32(0x20 + i * 7 % 0xd000).unwrap_or('?')); } }
    }
    let a = w.b().alloc("head");
    let l = w.b().alloc(s.as_str());
    let z = w.b().alloc(&[StringComponent::Ref(a), StringComponent::Value(&s), StringComponent::Ref(a)]);
    let y = w.b().alloc("tail");
    c.desc = format!("text of {} bytes starting with {:?}", s.len(), cut(&s, 20));
    c.nontrivial = true;
    let t = w.table();
    both(&t, a, "head", &c.desc)?;
    both(&t, y, "tail", &c.desc)?;
    for (id, want) in [(l, s.clone()), (z, format!("head{}head", s))] {
        let got = t.get(id).to_string().into_owned();
        check!(got == want, "{}: reads back wrong ({} bytes, should be {})", c.desc, got.len(), want.len());
    }
    Ok(())
}

fn mappings(c: &mut Ctx) -> Result<(), String> {
    let mut w = W::new();
    let pool: Vec<u64> = (0..5).map(|i| match i { 0 => 0, 1 => 100_000_000, _ => c.rng.below(100_000_001) }).collect();
    let mut map: HashMap<u64, String> = HashMap::new();
    let mut strings: Vec<(StringId, String)> = vec![];
    let mut ops = String::new();
    for k in 0..1 + c.rng.us(3 + c.size.min(20)) {
        let s = format!("s{}", k);
        let id = w.b().alloc(s.as_str());
        strings.push((id, s.clone()));
        match c.rng.below(5) {
            0 => { let m = format!("meta{}", k); w.b().alloc_metadata(m.as_str()); ops.push_str("metadata "); map.insert(mk::META, m); }
            1 | 2 => {
                let v = *c.rng.pick(&pool);
                let (cid, t) = c.rng.pick(&strings).clone();
                ops.push_str(&format!("map({}, {}) ", v, cid.as_u64()));
                w.b().map_virtual_to_concrete_string(StringId::new_virtual(v), cid);
                map.insert(v, t);
            }
            _ => {
                let n = if c.rng.chance(1, 80) { 16_000 + c.rng.us(40_000) } else if c.rng.chance(1, 40) { 100 + c.rng.us(1000) } else { c.rng.us(7) };
                let near = c.rng.below(99_000_000);
                let vs: Vec<u64> = (0..n).map(|i| if n > 50 && i % 3 != 0 { near + i as u64 } else { *c.rng.pick(&pool) }).collect();
                let (cid, t) = c.rng.pick(&strings).clone();
                ops.push_str(&format!("bulk({} ids {:?}, {}) ", n, cut(&format!("{:?}", vs), 100), cid.as_u64()));
                w.b().bulk_map_virtual_to_single_concrete_string(vs.iter().map(|&v| StringId::new_virtual(v)), cid);
                for v in vs { map.insert(v, t.clone()); }
            }
        }
    }
    c.desc = ops;
    c.nontrivial = map.len() > 1;
    let t = w.table();
    let (step, mut seen) = (map.len() / 200 + 1, pool.clone());
    let mut far: Vec<u64> = map.keys().copied().filter(|v| *v < mk::META).collect();
    far.sort();
    seen.extend(far.iter().step_by(step).chain(far.last()));
    for v in &seen { both(&t, StringId::new(*v), map.get(v).map(|s| s.as_str()).unwrap_or(UNKNOWN), &format!("{} virtual id {}", c.desc, v))?; }
    both(&t, StringId::new(mk::META), map.get(&mk::META).map(|s| s.as_str()).unwrap_or(UNKNOWN), &format!("{} metadata", c.desc))?;
    let m = t.get_metadata().to_string().into_owned();
    check!(m == map.get(&mk::META).cloned().unwrap_or(UNKNOWN.into()), "{}: get_metadata gives {:?}", c.desc, m);
    both(&t, StringId::INVALID, UNKNOWN, &format!("{} invalid id", c.desc))?;
    for (id, s) in &strings { both(&t, *id, s, &format!("{} string {}", c.desc, id.as_u64()))?; }
    Ok(())
}

fn ids(c: &mut Ctx) -> Result<(), String> {
    let near = [0, 1, 99_999_999, 100_000_000, 100_000_001, 100_000_002, 100_000_003, 100_000_004, u64::MAX - 1, u64::MAX, u64::MAX - mk::FIRST, u64::MAX - mk::FIRST + 1, 1 << 32];
    c.nontrivial = true;
    for k in 0..40 {
        let x = if k < near.len() { near[k] } else { c.rng.next() >> c.rng.below(64) };
        c.desc = format!("id or address {}", x);
        let id = StringId::new(x);
        check!(id.as_u64() == x && id.is_virtual() == (x <= mk::META), "{}: as_u64 {} is_virtual {}", c.desc, id.as_u64(), id.is_virtual());
        let nv = panics(|| StringId::new_virtual(x));
        check!(nv.is_ok() == (x <= 100_000_000), "{}: new_virtual {:?}", c.desc, nv);
        let ta = panics(|| id.to_addr());
        check!(ta.is_ok() == (x >= mk::FIRST), "{}: to_addr {:?}", c.desc, ta);
        if let Ok(a) = ta { check!(a.as_usize() as u64 == x - mk::FIRST && StringId::from_addr(a) == id, "{}: to_addr {:?}", c.desc, a); }
        let fa = panics(|| StringId::from_addr(measureme::Addr(x)));
        match x.checked_add(mk::FIRST) {
            Some(y) => check!(fa == Ok(StringId::new(y)) && StringId::new(y).to_addr().0 == x, "{}: from_addr {:?}", c.desc, fa),
            None => check!(fa.is_err(), "{}: from_addr {:?}", c.desc, fa),
        }
        // only user-virtual ids can be mapped, and only to concrete strings
        let mut w = W::new();
        let s = w.b().alloc("s");
        let one = panics(|| w.b().map_virtual_to_concrete_string(id, s));
        check!(one.is_ok() == (x <= 100_000_000), "{}: map_virtual_to_concrete_string {:?}", c.desc, one);
        let (n, at) = (1 + c.rng.us(3), c.rng.us(3));
        let bulk = panics(|| w.b().bulk_map_virtual_to_single_concrete_string((0..n).map(|i| if i == at % n { id } else { StringId::new(5u64) }).collect::<Vec<_>>().into_iter(), s));
        check!(bulk.is_ok() == (x <= 100_000_000), "{}: bulk mapping {:?}", c.desc, bulk);
        let tgt = panics(|| w.b().map_virtual_to_concrete_string(StringId::new(9u64), id));
        check!(tgt.is_ok() == (x >= mk::FIRST), "{}: mapping to it {:?}", c.desc, tgt);
        drop(bulk);
        // a refused mapping leaves nothing behind
        if x > 100_000_000 {
            w.b = None;
            let i = Arc::try_unwrap(w.i.take().unwrap()).unwrap_or_else(|_| panic!("shared")).into_bytes();
            check!(i.len() <= 8 + 16, "{}: a refused mapping wrote to the index", c.desc);
        }
    }
    Ok(())
}
