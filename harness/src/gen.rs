//! Seeded random cases (in addition to the ones TLC enumerates).
use crate::util::*;
use serde_json::{json, Value};
use std::io::Write;
fn shape(fmt: &str, r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    // a large one once in a while, and one too large for a JPEG segment
    let ex = |r: &mut Rng, p: &str| format!("{p}:{}", match r.below(60) { 0 => "L2", 1 if fmt != "JPEG" => "B2", _ => *r.pick(&["o1", "o2"]) });
    match fmt {
        "JPEG" => {
            if r.chance(1, 12) { v.push("HUGE".into()) }
            for _ in 0..r.below(8) { let t = *r.pick(&["APP0", "XMP", "XMPN", "APP1X", "APP2", "APP12", "APP13", "APP14", "COM", "FILL", "EXIF", "EXIF"]); v.push(if t == "EXIF" { ex(r, t) } else { t.into() }); }
            if r.chance(1, 12) { v.push("LONG".into()) }
            if r.chance(1, 3) {
                v.push("PROG".into());
                for _ in 0..r.below(3) { let t = *r.pick(&["XMP", "APP1X", "APP2", "COM", "FILL", "EXIF"]); v.push(if t == "EXIF" { ex(r, t) } else { t.into() }); }
            }
            for t in ["TRAIL", "NOEOI"] { if r.chance(1, 4) { v.push(t.into()); } }
        }
        "PNG" => {
            for _ in 0..r.below(8) { let t = *r.pick(&["gAMA", "pHYs", "tIME", "PLTE", "prVt", "TXT", "TXT", "XMPI", "XMPC", "XMPT", "XMPZ", "XMPN", "eXIf", "zEXIF", "tEXIF", "iEXIF", "IDAT"]); if t == "IDAT" && v.iter().any(|x| x == "IDAT") { continue } v.push(if t.ends_with("EXIF") || t == "eXIf" { ex(r, t) } else { t.into() }); }
            if r.chance(1, 12) { let i = r.below(v.len() + 1); v.insert(i, "HUGE".into()) }
            if r.chance(1, 12) { let i = r.below(v.len() + 1); v.insert(i, "XMPB".into()) }
            if r.chance(1, 12) { v.push("LONG".into()) }
            if r.chance(1, 5) { v.push("TRAIL".into()); }
        }
        "WEBP" => match r.below(5) {
            k @ (0 | 1) => { v.push(if k == 0 { "LOSSY" } else { "LOSSLESS" }.into()); if r.chance(1, 8) { v.push("LONG".into()) } }
            _ => {
                v.push("X".into());
                if r.chance(1, 3) { v.push("ICCP".into()) }
                let anim = r.chance(1, 3);
                if r.chance(1, 6) { v.push("UNK".into()) }
                if anim { v.push("ANIM".into()); for _ in 0..r.range(1, 3) { v.push("ANMF".into()) } }
                else if r.chance(1, 2) { if r.chance(1, 2) { v.push("ALPH".into()) } v.push("VP8".into()) } else { v.push("VP8L".into()) }
                let mut t = vec![];
                for _ in 0..r.below(3) { t.push(ex(r, "EXIF")) }
                if r.chance(1, 2) { t.push("XMP".into()) }
                if r.chance(1, 3) { t.push("UNK".into()) }
                for i in (1..t.len()).rev() { let j = r.below(i + 1); t.swap(i, j); }
                v.extend(t);
                if r.chance(1, 8) { v.push("LONG".into()) }
            }
        },
        "JXL" => if r.chance(1, 6) { v.push("NAKED".into()) } else {
            for _ in 0..r.below(6) { let t = *r.pick(&["jxll", "jxli", "huge", "jumb", "jbrd", "empt", "tiny", "xml", "bxml", "EXIF", "BEXIF", "EXIF"]); v.push(if t.ends_with("EXIF") { ex(r, t) } else { t.into() }); }
            let cs = *r.pick(&["jxlc", "jxlp", "jxlc0", "jxlc64"]);
            if cs == "jxlp" { for _ in 0..r.range(1, 3) { v.push(cs.into()) } } else if cs == "jxlc0" { v.push(cs.into()) } else { let i = r.below(v.len() + 1); v.insert(i, cs.into()) }
        },
        "HEIF" => {
            if r.chance(1, 12) { v.push("HUGE".into()) }
            for _ in 0..r.below(7) { v.push(r.pick(&["IMG", "IMG", "THMB", "XMP", "PART", "PART", "ZERO", "SHARE", "GAP", "SAMP", "SPLIT", "NOLOC"]).to_string()); }
            if r.chance(2, 3) { let i = r.below(v.len() + 1); v.insert(i, ex(r, "EXIF")); if r.chance(1, 6) { for _ in 0..r.range(1, 2) { let i = r.below(v.len() + 1); v.insert(i, ex(r, "EXIF2")) } } }
            else if r.chance(1, 8) { let i = r.below(v.len() + 1); v.insert(i, ex(r, "XEXIF")) }
            for t in ["IDAT", "REMOTE", "ITEMC", "FIRST", "BASE", "V1", "V2", "I3", "BIG", "TOP", "O8", "L8", "B4", "B8", "X4", "X8", "IREF0", "IREF1", "PITM1", "IINF1", "FREE", "UUID", "TRAIL", "AVIF", "CO64", "NOLOC", "I0", "PROT"] { if r.chance(1, 5) { v.push(t.into()) } }
            if r.chance(1, 6) { v.push(r.pick(&["MD0", "MD64"]).to_string()) }
            if !v.iter().filter(|t| *t == "PART").nth(1).is_some() && r.chance(1, 8) { v.push("O0".into()) }
            if r.chance(1, 20) { v = vec!["TINY".into()]; for t in ["V2", "I3", "FREE", "UUID", "AVIF", "IINF1", "PITM1", "X4", "IREF0", "TRAIL", "NOLOC"] { if r.chance(1, 4) { v.push(t.into()) } } }
        }
        "TIFF" => {
            v.push(ex(r, "EXIF"));
            if r.chance(1, 10) { v[0] = "EXIF:h1".into() }
            for t in ["SHUF", "GAPS", "ODD", "SHARE", "SHORT", "JUNK", "TAIL"] { if r.chance(1, 3) { v.push(t.into()) } }
        }
        _ => panic!("fmt {fmt}"),
    }
    // more of everything than fits a byte, or than anybody expects
    if r.chance(1, 60) && fmt != "TIFF" && v.first().map_or(true, |t| !["LOSSY", "LOSSLESS", "NAKED", "TINY"].contains(&&t[..])) {
        let k = v.iter().position(|t| ["jxlc0", "PROG", "TRAIL", "NOEOI"].contains(&&t[..])).unwrap_or(v.len());
        let at = |r: &mut Rng| { let lo = if fmt == "WEBP" { k } else { 0 }; r.range(lo, k) };
        if r.chance(1, 2) || fmt == "HEIF" { let i = at(r); v.insert(i, "MANY".into()) }
        else { for _ in 0..r.range(9, 20) { let i = at(r); let t = match fmt { "PNG" => *r.pick(&["eXIf", "zEXIF", "tEXIF"]), _ => "EXIF" }; let e = ex(r, t); v.insert(i, e) } }
    }
    v
}
fn ops(fmt: &str, r: &mut Rng) -> Vec<String> {
    (0..r.range(1, 5)).map(|_| match r.below(12) {
        0..=1 => "C".to_string(),
        2..=3 => "E".into(),
        4 if fmt == "JPEG" => r.pick(&["C12", "C13"]).to_string(),
        5 if fmt == "TIFF" => if r.chance(1, 4) { r.pick(&["W:q1", "W:e0"]).to_string() } else { format!("W:u{}", r.below(10)) },
        5 if r.chance(1, 3) => "W:BG".into(),
        6 => if fmt == "JPEG" && r.chance(1, 2) { "W:F1" } else { "W:L1" }.into(),
        7 => "W:b1".into(),
        8 => "W:n1".into(),
        9 => "W:m2".into(),
        _ => "W:m1".into(),
    }).collect()
}
pub fn gen(suite: &str, n: usize, seed: u64, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let (kind, arg) = suite.split_once(':').unwrap_or((suite, ""));
    for i in 0..n {
        let mut r = Rng::new(seed_of(suite, seed.wrapping_mul(1_000_003).wrapping_add(i as u64)));
        let cs = r.below(1 << 30);
        let v: Value = match kind {
            "cont" => { let s = shape(arg, &mut r); json!({"id": format!("r{i}"), "suite": "cont", "fmt": arg, "seed": cs, "shape": s, "ops": ops(arg, &mut r)}) }
            "store" => { let mut v = crate::store::rand_case(&mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("store"); v }
            "codec" => { let mut v = crate::codec::rand_case(&mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("codec"); v }
            "robust" => { let mut v = crate::robust::rand_case(arg, &mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("robust"); v }
            "ftype" => { let mut v = crate::ftype::rand_case(&mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("ftype"); v }
            "export" => { let mut v = crate::export::rand_case(&mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("export"); v }
            "ratio" => { let mut v = crate::ratio::rand_case(&mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("ratio"); v }
            "fault" => { let mut v = crate::fault::rand_case(&mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("fault"); v }
            "fsys" => { let mut v = crate::fsys::rand_case(&mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("fsys"); v }
            "tag" => { let mut v = crate::tagapi::rand_case(&mut r); v["id"] = json!(format!("r{i}")); v["suite"] = json!("tag"); v }
            _ => panic!("suite {suite}"),
        };
        writeln!(f, "{v}").unwrap();
    }
}
