//! The command line tools, driven as the real binaries ($VX_BIN) on files written here.
use crate::common::*;
use crate::mk::*;
use std::process::Command;

pub fn bin(name: &str) -> String {
    format!("{}/{}", std::env::var("VX_BIN").expect("VX_BIN"), name)
}

/// mmedit truncate on a random page list
fn mmedit(c: &mut Ctx) -> Result<(), String> {
    let n = if c.rng.chance(1, 30) { 100 + c.rng.us(300) } else { c.rng.us(2 + c.size.min(12)) };
    let mut pages: Vec<(u8, Vec<u8>)> = vec![];
    for _ in 0..n {
        let big = n < 100 && c.rng.chance(1, 12);
        let len = 1 + if big { c.rng.us(70000) } else { c.rng.us(40) };
        let tag = *c.rng.pick(&[0u8, 0, 1, 2]);
        // often the same page again
        if c.rng.chance(1, 4) && !pages.is_empty() { let p = c.rng.pick(&pages).clone(); pages.push(if c.rng.bool() { p } else { (tag, p.1) }); continue; }
        let body = c.rng.content(len);
        pages.push((tag, body));
    }
    let version = if c.rng.chance(2, 3) { *c.rng.pick(&[7u32, 8]) } else { *c.rng.pick(&[0u32, 1, 5, 6, 9, 10, 11, 255, 263, 0x0107, 0x07000000, u32::MAX]) };
    let magic = if c.rng.chance(5, 6) { *b"MMPD" } else { *c.rng.pick(&[*b"MMES", *b"MMSD", *b"mmpd", *b"MMPE", [0, 0, 0, 0]]) };
    let mut f = header(&magic, version);
    let short = c.rng.chance(1, 20);
    let mut want = f.clone();
    let mut seen = false;
    for (t, b) in &pages {
        let mut p = vec![*t];
        p.extend_from_slice(&(b.len() as u32).to_le_bytes());
        p.extend_from_slice(b);
        f.extend_from_slice(&p);
        if *t != 0 || !seen {
            want.extend_from_slice(&p);
        }
        seen |= *t == 0;
    }
    if short {
        f.truncate(c.rng.us(8));
    }
    let ok = !short && &magic == b"MMPD" && (version == 7 || version == 8);
    c.desc = format!("magic {:?} version {} pages {:?} short {}", magic, version, pages.iter().map(|p| (p.0, p.1.len())).collect::<Vec<_>>(), short);
    c.nontrivial = n > 1;
    let path = c.dir.join("t.mm_profdata");
    let out = c.dir.join("t.truncated.mm_profdata");
    let _ = std::fs::remove_file(&out);
    // what an earlier run left is replaced
    let stale = ok && c.rng.chance(1, 3);
    if stale { let n = want.len() + c.rng.us(50); std::fs::write(&out, c.rng.bytes(n)).unwrap(); }
    std::fs::write(&path, &f).unwrap();
    let r = Command::new(bin("mmedit")).arg("truncate").arg(&path).output().map_err(|e| format!("cannot run mmedit: {}", e)).unwrap();
    let got = std::fs::read(&out);
    check!(std::fs::read(&path).unwrap() == f, "the original file was changed");
    if ok {
        check!(r.status.success(), "a supported file was refused: {}", String::from_utf8_lossy(&r.stderr));
        let got = got.map_err(|e| format!("no output file: {}", e))?;
        check!(got == want, "truncated file differs: {} bytes, expected {}", got.len(), want.len());
    } else {
        check!(r.status.code() == Some(1), "an unsupported file was not refused with an error: {:?} {}", r.status, String::from_utf8_lossy(&r.stderr));
        check!(got.is_err(), "an unsupported file was truncated all the same");
    }
    Ok(())
}

pub const CASES: &[(&str, &str, Case)] = &[("C21", "truncation", mmedit)];
