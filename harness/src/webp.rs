use crate::cont::*;
use crate::util::*;
fn chunk(o: &mut Vec<u8>, t: &[u8], d: &[u8]) { o.extend(t); o.extend((d.len() as u32).to_le_bytes()); o.extend(d); if d.len() % 2 == 1 { o.push(0); } }
fn dims(r: &mut Rng) -> (u32, u32) { let v = [1u32, 2, 3, 100, 255, 256, 257, 1023, 8192, 16383, 16384]; let p = |r: &mut Rng| if r.chance(1, 2) { *r.pick(&v) } else { r.range(1, 16384) as u32 }; (p(r), p(r)) }
fn vp8(w: u32, h: u32, r: &mut Rng) -> Vec<u8> {
    let mut v = r.bytes(3); v[0] &= 0xfe; v.extend([0x9d, 0x01, 0x2a]);
    v.extend((((w & 0x3fff) | ((r.below(4) as u32) << 14)) as u16).to_le_bytes()); v.extend((((h & 0x3fff) | ((r.below(4) as u32) << 14)) as u16).to_le_bytes());
    let n = r.range(1, 60); v.extend(r.bytes(n)); v
}
fn vp8l(w: u32, h: u32, alpha: bool, r: &mut Rng) -> Vec<u8> {
    let mut v = vec![0x2f];
    v.extend(((w - 1) | ((h - 1) << 14) | ((alpha as u32) << 28)).to_le_bytes());
    let n = r.range(1, 60); v.extend(r.bytes(n)); v
}
fn vp8x(flags: u8, w: u32, h: u32) -> Vec<u8> { let mut v = vec![flags, 0, 0, 0]; v.extend(&(w - 1).to_le_bytes()[..3]); v.extend(&(h - 1).to_le_bytes()[..3]); v }
/// shape: ["LOSSY"] | ["LOSSLESS"] | ["X", ...]
pub fn build(shape: &[String], d: &Dict, r: &mut Rng) -> Vec<u8> {
    let mut b = b"WEBP".to_vec();
    let (w, h) = dims(r);
    match shape[0].as_str() {
        "LOSSY" => { let mut c = vp8(w.min(16383), h.min(16383), r); if shape.len() > 1 { let n = huge(r); c.extend(r.bytes(n)) } chunk(&mut b, b"VP8 ", &c); }
        "LOSSLESS" => { let a = r.chance(1, 2); let mut c = vp8l(w, h, a, r); if shape.len() > 1 { let n = huge(r); c.extend(r.bytes(n)) } chunk(&mut b, b"VP8L", &c); }
        _ => {
            let mut f = 0u8;
            for s in shape { f |= match s.as_str() { "ICCP" => 0x20, "ALPH" => 0x10, "XMP" => 0x04, "ANIM" => 0x02, e if e.starts_with("EXIF:") => 0x08, _ => 0 }; }
            if r.chance(1, 4) { f |= 0x10; }
            let big = r.chance(1, 3);
            let (cw, ch) = if big { (r.range(1, 1 << 20) as u32, r.range(1, 1 << 12) as u32) } else { (w, h) };
            chunk(&mut b, b"VP8X", &vp8x(f, cw, ch));
            let some = |r: &mut Rng| { let n = r.below(30); r.bytes(n) };
            for s in &shape[1..] {
                match s.as_str() {
                    "ICCP" => { let v = some(r); chunk(&mut b, b"ICCP", &v) }
                    "ANIM" => { let v = r.bytes(6); chunk(&mut b, b"ANIM", &v) }
                    "ANMF" => { let mut v = r.bytes(16); chunk(&mut v, b"VP8L", &vp8l(3, 4, false, r)); chunk(&mut b, b"ANMF", &v) }
                    "ALPH" => { let v = some(r); chunk(&mut b, b"ALPH", &v) }
                    "VP8" => { let v = vp8(w.min(16383), h.min(16383), r); chunk(&mut b, b"VP8 ", &v) }
                    "VP8L" => { let v = vp8l(w, h, true, r); chunk(&mut b, b"VP8L", &v) }
                    "XMP" => { let v = crate::xmpx::build(2, r); chunk(&mut b, b"XMP ", &v) }
                    "LONG" => { let n = huge(r); let v = r.bytes(n); chunk(&mut b, b"abcd", &v) }
                    "MANY" => for _ in 0..r.range(257, 300) { let n = r.below(4); let v = r.bytes(n); chunk(&mut b, b"abcd", &v) },
                    "UNK" => { let v = some(r); let t = *r.pick(&[b"abcd", b"EXIG", b"EXI ", b"XEXI", b"XMPX", b"IFEX"]); chunk(&mut b, t, &v) }
                    e if e.starts_with("EXIF:") => { let mut v = d.tiff[&e[5..]].clone(); if r.chance(1, 2) && v.len() % 2 == 0 { v.push(0); } chunk(&mut b, b"EXIF", &v) }
                    _ => panic!("webp shape {s}"),
                }
            }
        }
    }
    let mut o = b"RIFF".to_vec();
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
    o
}
pub fn lex(b: &[u8], d: &Dict) -> Result<Lex, String> {
    if b.len() < 12 || &b[..4] != b"RIFF" || &b[8..12] != b"WEBP" { return Err("signature".into()); }
    let mut l = Lex::default();
    if le32(&b[4..8]) as usize + 8 != b.len() { l.p.push(format!("RIFF size {} but file has {} bytes", le32(&b[4..8]), b.len())); }
    let mut p = 12;
    let (mut flags, mut img): (Option<u8>, Option<(u32, u32)>) = (None, None);
    let mut alpha = 0;
    let (mut n, mut exif, mut xmp, mut icc, mut anim) = (0, 0, 0, 0, 0);
    while p < b.len() {
        let t = b.get(p..p + 4).ok_or("fourcc")?;
        let len = le32(b.get(p + 4..p + 8).ok_or("size")?) as usize;
        let pay = b.get(p + 8..(p + 8).checked_add(len).ok_or("len")?).ok_or(format!("chunk {} overruns file", String::from_utf8_lossy(t)))?;
        let name = String::from_utf8(t.to_vec()).map_err(|_| "fourcc not ascii")?;
        p += 8 + len;
        if len % 2 == 1 { match b.get(p) { Some(0) => (), Some(_) => l.p.push(format!("padding of {name} not zero")), None => return Err("missing padding".into()) } p += 1; }
        match name.as_str() {
            "VP8X" => {
                if n != 0 { l.p.push("VP8X is not the first chunk".into()); }
                if len != 10 { return Err("VP8X size".into()); }
                flags = Some(pay[0]);
                if pay[1..4] != [0, 0, 0] { l.p.push("VP8X reserved".into()); }
                let canvas = (le24(&pay[4..7]) + 1, le24(&pay[7..10]) + 1);
                l.units.push(Unit { k: "VP8X".into(), c: format!("{}x{}", canvas.0, canvas.1), x: (pay[0] & !0x08) as i64 });
            }
            "EXIF" => { exif += 1; l.carr.push(b[p - 8 - len - len % 2..p].to_vec()); l.units.push(unit("EXIF", d.id(pay))); }
            "VP8 " => { if len < 10 { return Err("VP8 too short".into()); } img = Some((u16::from_le_bytes([pay[6], pay[7]]) as u32 & 0x3fff, u16::from_le_bytes([pay[8], pay[9]]) as u32 & 0x3fff)); l.units.push(unit("VP8", dig(pay))); }
            "VP8L" => { if len < 5 { return Err("VP8L too short".into()); } let v = le32(&pay[1..5]); img = Some(((v & 0x3fff) + 1, ((v >> 14) & 0x3fff) + 1)); alpha = (v >> 28 & 1) as i64; l.units.push(unit("VP8L", dig(pay))); }
            x => { match x { "XMP " => xmp += 1, "ICCP" => icc += 1, "ANIM" => anim += 1, _ => () } l.units.push(unit(x, dig(pay))); }
        }
        n += 1;
    }
    match flags {
        Some(f) => {
            if (f & 0x08 != 0) != (exif > 0) { l.p.push(format!("EXIF flag {} but {exif} EXIF chunks", f & 8 != 0)); }
            if (f & 0x04 != 0) != (xmp > 0) { l.p.push("XMP flag".into()); }
            if (f & 0x20 != 0) != (icc > 0) { l.p.push("ICC flag".into()); }
            if (f & 0x02 != 0) != (anim > 0) { l.p.push("ANIM flag".into()); }
        }
        None => if exif > 0 || n > 1 { l.p.push("simple format with more than one chunk".into()); }
    }
    if let Some((w, h)) = img { l.units.push(Unit { k: "DIM".into(), c: format!("{w}x{h}"), x: alpha }); }
    Ok(l)
}
