use crate::cont::*;
use crate::util::*;
use std::io::Cursor;
pub const SIG: [u8; 12] = [0, 0, 0, 0x0c, 0x4a, 0x58, 0x4c, 0x20, 0x0d, 0x0a, 0x87, 0x0a];
fn bx(o: &mut Vec<u8>, t: &[u8], d: &[u8]) { o.extend(((d.len() + 8) as u32).to_be_bytes()); o.extend(t); o.extend(d); }
/// the size may also be given in 64 bits, or (last box) not at all
fn anybx(o: &mut Vec<u8>, t: &[u8], d: &[u8], last: bool, r: &mut Rng) {
    match r.below(6) {
        0 => { o.extend([0, 0, 0, 1]); o.extend(t); o.extend((d.len() as u64 + 16).to_be_bytes()); o.extend(d) }
        1 if last => { o.extend([0, 0, 0, 0]); o.extend(t); o.extend(d) }
        _ => bx(o, t, d),
    }
}
fn brotli(d: &[u8]) -> Vec<u8> { let mut o = vec![]; brotli::BrotliCompress(&mut Cursor::new(d), &mut o, &Default::default()).unwrap(); o }
pub fn build(shape: &[String], d: &Dict, r: &mut Rng) -> Vec<u8> {
    let some = |r: &mut Rng| { let n = r.below(50); r.bytes(n) };
    if shape[0] == "NAKED" { let mut o = vec![0xff, 0x0a]; let n = if r.chance(1, 8) { huge(r) } else { r.range(12, 80) }; o.extend(r.bytes(n)); return o; }
    let mut o = SIG.to_vec();
    bx(&mut o, b"ftyp", b"jxl \0\0\0\0jxl ");
    for (i, s) in shape.iter().enumerate() {
        let last = i + 1 == shape.len();
        match s.as_str() {
            "jxll" => bx(&mut o, b"jxll", &[5]),
            "jxli" => { let v = some(r); bx(&mut o, b"jxli", &v) }
            "jumb" => { let v = some(r); let t = *r.pick(&[b"jumb", b"jumb", b"exif", b"EXIF", b"Exig", b"uuid", b"brob"]); if t == b"brob" { let mut w = r.pick(&[b"jumb", b"exif", b"Exig"]).to_vec(); w.extend(brotli(&v)); bx(&mut o, t, &w) } else { bx(&mut o, t, &v) } }
            "jbrd" => { let v = some(r); bx(&mut o, b"jbrd", &v) }
            "huge" => { let n = huge(r); let v = r.bytes(n); bx(&mut o, b"jumb", &v) }
            "MANY" => for _ in 0..r.range(257, 300) { let n = r.below(3); let v = r.bytes(n); bx(&mut o, b"jumb", &v) },
            "empt" => bx(&mut o, b"free", &[]),
            "tiny" => bx(&mut o, b"free", &[7]),
            "xml" => { let v = crate::xmpx::build(1, r); anybx(&mut o, b"xml ", &v, last, r) }
            "bxml" => { let mut v = b"xml ".to_vec(); v.extend(brotli(&crate::xmpx::build(1, r))); anybx(&mut o, b"brob", &v, last, r) }
            "jxlc" => { let mut v = vec![0xff, 0x0a]; v.extend(some(r)); bx(&mut o, b"jxlc", &v) }
            "jxlp" => { let mut v = vec![0x80, 0, 0, 0]; v.extend(some(r)); bx(&mut o, b"jxlp", &v) }
            "jxlc0" => { let mut v = vec![0xff, 0x0a]; v.extend(some(r)); o.extend([0, 0, 0, 0]); o.extend(b"jxlc"); o.extend(v) }
            "jxlc64" => { let mut v = vec![0xff, 0x0a]; v.extend(some(r)); o.extend([0, 0, 0, 1]); o.extend(b"jxlc"); o.extend((v.len() as u64 + 16).to_be_bytes()); o.extend(v) }
            e if e.starts_with("EXIF:") => { let mut v = exifbox(&d.tiff[&e[5..]], r); if r.chance(1, 4) { v.extend([0; 3]) } anybx(&mut o, b"Exif", &v, last, r) }
            e if e.starts_with("BEXIF:") => { let v = exifbox(&d.tiff[&e[6..]], r); let mut c = b"Exif".to_vec(); c.extend(brotli(&v)); anybx(&mut o, b"brob", &c, last, r) }
            _ => panic!("jxl shape {s}"),
        }
    }
    o
}
fn exifbox(t: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    // the first four bytes say how far behind them the TIFF block starts
    match r.below(5) {
        0 | 1 => { v.extend([0, 0, 0, 6]); v.extend(b"Exif\0\0"); }
        2 => { let n = if r.chance(1, 10) { r.range(65500, 70000) } else { r.range(1, 20) }; v.extend((n as u32).to_be_bytes()); v.extend(r.bytes(n)); }
        _ => v.extend([0, 0, 0, 0]),
    }
    v.extend(t); v
}
fn exif_id(d: &Dict, v: &[u8]) -> Result<String, String> {
    let off = be32(v.get(..4).ok_or("Exif box too short")?) as usize;
    Ok(d.id(v.get(4 + off..).ok_or("Exif box offset")?))
}
pub fn lex(b: &[u8], d: &Dict) -> Result<Lex, String> {
    let mut l = Lex::default();
    if b.starts_with(&[0xff, 0x0a]) { l.units.push(unit("CS", dig(b))); return Ok(l); }
    if !b.starts_with(&SIG) { return Err("signature".into()); }
    let mut p = 0;
    let mut n = 0;
    while p < b.len() {
        let mut len = be32(b.get(p..p + 4).ok_or("size")?) as usize;
        let t = b.get(p + 4..p + 8).ok_or("type")?;
        let mut h = 8;
        let mut last = false;
        if len == 1 { len = be64(b.get(p + 8..p + 16).ok_or("size64")?) as usize; h = 16; }
        if len == 0 { len = b.len() - p; last = true; }
        if len < h { return Err("box too small".into()); }
        let pay = b.get(p + h..p.checked_add(len).ok_or("len")?).ok_or("box overruns file")?;
        p += len;
        let name = String::from_utf8_lossy(t).into_owned();
        if n == 1 && name != "ftyp" { l.p.push("ftyp is not the second box".into()); }
        n += 1;
        let tag = if last { "0" } else if h == 16 { "64" } else { "" };
        match name.as_str() {
            "JXL " => l.units.push(unit("JXL", if pay == &SIG[8..] { "sig".into() } else { dig(pay) })),
            "ftyp" => l.units.push(unit("ftyp", if pay == b"jxl \0\0\0\0jxl " { "jxl".into() } else { dig(pay) })),
            "Exif" => l.units.push(unit("EXIF", exif_id(d, pay).unwrap_or_else(|e| { l.p.push(e); "bad".into() }))),
            "brob" if pay.starts_with(b"Exif") => {
                let mut out = vec![];
                let id = brotli::BrotliDecompress(&mut Cursor::new(&pay[4..]), &mut out).map_err(|e| e.to_string()).and_then(|_| exif_id(d, &out));
                l.units.push(unit("EXIF", id.unwrap_or_else(|e| { l.p.push(e); "bad".into() })));
            }
            // a codestream, however it is boxed
            "jxlc" => l.units.push(unit("CS", dig(pay))),
            x => l.units.push(unit(&format!("{}{tag}", if x == "EXIF" { "UPPER" } else { x }), dig(pay))),
        }
    }
    Ok(l)
}
