//! C10: event ids
use crate::common::*;
use crate::mk;
use measureme::{EventId, EventIdBuilder, Profiler};

pub const CASES: &[(&str, &str, Case)] = &[
    ("C10", "random event id texts (separators, control characters, multi-byte text, empty parts), stored whole or in pieces, decoded and compared with an independent parser", texts),
    ("C10", "labels and 0..20 arguments composed by EventIdBuilder in a real profile file and read back", composed),
];

fn is_bad(ch: char) -> bool { (ch.is_ascii_control() && !(9..=13).contains(&(ch as u32))) && ch.is_ascii() }

/// (label, args) by the documented grammar
pub fn parse(s: &str) -> (String, Vec<String>) {
    let parts: Vec<&str> = s.split('\u{1e}').collect();
    let ok = |p: &str| !p.is_empty() && !p.chars().any(is_bad);
    if !ok(parts[0]) { return ("<parse error>".into(), vec![]); }
    (parts[0].into(), parts[1..].iter().take_while(|p| ok(p)).map(|p| p.to_string()).collect())
}

fn piece(c: &mut Ctx) -> String {
    let good = ["a", "foo", "ä", "€uro", "😀", " ", "\t", "\n", "\u{b}", "\u{c}", "\r", "x y", "1", "\u{80}", "\u{9f}", "~"];
    let bad = ["\u{0}", "\u{1}", "\u{8}", "\u{e}", "\u{1b}", "\u{1d}", "\u{1f}", "\u{7f}"];
    let mut s = String::new();
    for _ in 0..c.rng.us(4) { s.push_str(*c.rng.pick(&good)); }
    if c.rng.chance(1, 200) { s.push_str(&c.rng.pick(&good).repeat(c.rng.us(5000))); }
    if c.rng.chance(1, 8) { s.push_str(*c.rng.pick(&bad)); s.push_str(if c.rng.bool() { "t" } else { "" }); }
    s
}

fn texts(c: &mut Ctx) -> Result<(), String> {
    let n = if c.rng.chance(1, 30) { 60 + c.rng.us(300) } else { c.rng.us(5) };
    let mut s = piece(c);
    for _ in 0..n { s.push('\u{1e}'); let p = piece(c); s.push_str(if n > 20 && p.is_empty() { "z" } else { &p }); }
    if c.rng.chance(1, 20) { s.clear(); }
    c.desc = format!("event id text {:?}", s);
    c.nontrivial = s.len() > 1;
    let mut f = mk::File::new(0, 1, "x");
    let k = f.string("Kind");
    let id = if c.rng.bool() { f.string(&s) } else {
        // as a reference followed by a literal, cut at a character boundary
        let cuts: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        let cut = *c.rng.pick(&cuts);
        let a = f.string(&s[..cut]);
        f.composite(&[Err(a), Ok(&s[cut..])])
    };
    f.event(mk::Ev { kind: k, id, tid: 3, p1: 1, p2: 2 });
    let d = f.decoder();
    let (label, args) = parse(&s);
    let e = panics(|| { let e = d.decode_full_event(0); (e.label.to_string(), e.additional_data.iter().map(|a| a.to_string()).collect::<Vec<_>>()) })
        .map_err(|p| format!("{:?}: decoding panics: {}", s, p))?;
    check!(e.0 == label, "{:?}: label {:?}, should be {:?}", s, e.0, label);
    check!(e.1 == args, "{:?}: arguments {:?}, should be {:?}", s, e.1, args);
    Ok(())
}

fn composed(c: &mut Ctx) -> Result<(), String> {
    let path = c.dir.join(format!("c10_{}", c.idx));
    let mut want = vec![];
    let good = |c: &mut Ctx| loop { let p = piece(c); if !p.is_empty() && !p.chars().any(is_bad) { return p; } };
    {
        let p = Profiler::new(&path).map_err(|e| format!("Profiler::new: {}", e))?;
        let b = EventIdBuilder::new(&p);
        let kind = p.alloc_string("Kind");
        for _ in 0..1 + c.rng.us(4) {
            let label = good(c);
            let n = *c.rng.pick(&[0usize, 1, 2, 3, 4, 7, 20, 300]);
            let args: Vec<String> = (0..n).map(|_| good(c)).collect();
            let l = p.alloc_string(&label[..]);
            let ids: Vec<_> = args.iter().map(|a| p.alloc_string(&a[..])).collect();
            let id: EventId = if n == 0 && c.rng.bool() { b.from_label(l) } else if n == 1 && c.rng.bool() { b.from_label_and_arg(l, ids[0]) } else { b.from_label_and_args(l, &ids) };
            p.record_integer_event(kind, id, 1, 1);
            want.push((label, args));
        }
    }
    c.desc = format!("composed {:?}", want);
    c.nontrivial = want.iter().any(|w| !w.1.is_empty());
    let r = analyzeme::ProfilingData::new(&path).map_err(|e| format!("cannot open: {}", e));
    let _ = std::fs::remove_file(path.with_extension("mm_profdata"));
    let got: Vec<_> = r?.iter_full().map(|e| (e.label.to_string(), e.additional_data.iter().map(|a| a.to_string()).collect::<Vec<_>>())).collect();
    check!(got == want, "read back {:?}, should be {:?}", got, want);
    Ok(())
}
