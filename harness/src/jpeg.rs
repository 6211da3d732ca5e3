use crate::cont::*;
use crate::util::*;
use crate::xmpx;
const XMP_NS: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";
fn seg(o: &mut Vec<u8>, m: u8, d: &[u8]) { o.extend([0xff, m]); o.extend(((d.len() + 2) as u16).to_be_bytes()); o.extend(d); }
/// payload that may contain marker look-alikes
fn tricky(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(max + 1) { match r.below(6) { 0 => v.extend([0xff, 0xe1]), 1 => v.extend([0xff, 0xd9]), 2 => v.extend(b"Exif\0\0"), 3 => v.push(0xff), _ => v.push(r.next() as u8) } }
    v
}
fn ecs(o: &mut Vec<u8>, r: &mut Rng) {
    let mut rst = r.below(8) as u8;
    for _ in 0..r.range(1, 40) {
        match r.below(10) {
            // restart marker (in sequence) followed by data which resembles a (too small, jumping, plain) segment length
            8 | 9 => {
                // any marker may have fill bytes in front of it
                if r.chance(1, 6) { o.extend(vec![0xff; r.range(1, 3)]); }
                o.extend([0xff, 0xd0 + rst]); rst = (rst + 1) % 8;
                match r.below(5) { 0 => o.extend([0, 0]), 1 => o.extend([0, 1]), 2 => o.extend([0, r.range(2, 12) as u8]), 3 => o.extend([0x7f, 0x7f]), _ => o.push((r.next() & 0x7f) as u8) }
            }
            0 => o.extend([0xff, 0x00]), 1 => o.extend([0xff, 0xd0 + r.below(8) as u8]), 2 => o.extend([0xe1, 0x00, 0x08]), _ => o.push((r.next() & 0x7f) as u8) }
    }
}
/// scan header: 1 - 4 components; any byte is a valid component identifier, so that the header may resemble markers
fn sos(r: &mut Rng, i: u8) -> Vec<u8> {
    let n = if r.chance(1, 2) { 1 } else { r.range(1, 4) as u8 };
    let mut v = vec![n];
    for c in 0..n { v.extend([if r.chance(1, 2) { *r.pick(&[0xffu8, 0xe1, 0xd9, 0x00, b'R']) } else { c + 1 }, *r.pick(&[0x00u8, 0x11, 0x10, 0x01, 0x22])]); }
    if r.chance(1, 2) { v.extend([0, 63, i]) } else { v.extend([0, *r.pick(&[0u8, 63, 255]), *r.pick(&[0u8, 0x11, 0xe1])]) }
    v
}
pub fn build(shape: &[String], d: &Dict, r: &mut Rng) -> Vec<u8> {
    let mut head = vec![0xff, 0xd8];
    // what follows PROG gets between the first and the second scan
    let mut mid = vec![];
    let mut tail = String::new();
    for s in shape {
        let o: &mut Vec<u8> = if tail.contains("PROG") { &mut mid } else { &mut head };
        if s == "FILL" { o.push(0xff); continue; }
        if s == "PROG" || s == "LONG" || s == "TRAIL" || s == "NOEOI" { tail += s; continue; }
        match s.as_str() {
            "APP0" => { let mut v = b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0".to_vec(); if r.chance(1, 3) { v.extend(tricky(r, 4)) } seg(o, 0xe0, &v) }
            "XMP" | "XMPN" => { let mut v = XMP_NS.to_vec(); let mut x = vec![0; 65500]; while x.len() > 65400 { x = xmpx::build(if s == "XMP" { 1 + r.below(3) } else { 0 }, r); } v.extend(x); seg(o, 0xe1, &v) }
            "APP1X" => { let v = match r.below(5) { 0 => vec![], 4 => { let mut v = r.pick(&[&b"EXIF\0\0"[..], b"exif\0\0", b"Exif\0", b"Exif", b"Exif  ", b"Exig\0\0", b"\0Exif\0\0", b"Exifx\0"]).to_vec(); if v != b"Exif\0" { v.extend(b"II*\0\x08\0\0\0\0\0\0\0\0\0") } v } 1 => b"Exif\0".to_vec(), 2 => b"http://ns.adobe.com/xmp/extension/\0abc".to_vec(), _ => { let mut v = b"QQ".to_vec(); v.extend(tricky(r, 20)); v } }; seg(o, 0xe1, &v) }
            "APP2" => { let v = tricky(r, 30); seg(o, 0xe2, &v) }
            "APP12" => { let v = tricky(r, 20); seg(o, 0xec, &v) }
            "APP13" => { let v = tricky(r, 20); seg(o, 0xed, &v) }
            "HUGE" => { let n = *r.pick(&[65533usize, 65532, 65530, 40000]); let mut v = r.bytes(n); if r.chance(1, 3) { v[n - 20..n - 14].copy_from_slice(b"Exif\0\0") } seg(o, *r.pick(&[0xe2, 0xfe, 0xec, 0xe4]), &v) }
            "APP14" => { let v = tricky(r, 12); seg(o, 0xee, &v) }
            "MANY" => for i in 0..r.range(257, 300) { let v = tricky(r, 3); seg(o, if i % 7 == 0 { 0xec } else { 0xfe }, &v) },
            "COM" => { let v = tricky(r, 16); seg(o, 0xfe, &v) }
            e if e.starts_with("EXIF:") => { let mut v = b"Exif\0\0".to_vec(); v.extend(&d.tiff[&e[5..]]); seg(o, 0xe1, &v) }
            _ => panic!("jpeg shape {s}"),
        }
    }
    let mut o = head;
    seg(&mut o, 0xdb, &r.bytes(65));
    let prog = tail.contains("PROG");
    let sof = if prog { 0xc2 } else { *r.pick(&[0xc0u8, 0xc0, 0xc1, 0xc3, 0xc9]) };
    seg(&mut o, sof, &r.bytes(15));
    if r.chance(1, 3) { seg(&mut o, 0xdd, &[0, 4]); }
    for i in 0..(if prog { 3 } else { 1 }) {
        if i == 1 { o.extend(&mid); }
        if i == 1 && r.chance(1, 3) { let v = r.bytes(2); seg(&mut o, 0xdc, &v); } // number of lines, given after the first scan
        if r.chance(1, 5) { let v = tricky(r, 6); seg(&mut o, *r.pick(&[0xccu8, 0xdd, 0xdf, 0xf0, 0xfd, 0xe3, 0xef]), &v); }
        let v = tricky(r, 18);
        seg(&mut o, 0xc4, &v);
        if i == 1 && r.chance(1, 2) { seg(&mut o, 0xfe, b"between"); }
        seg(&mut o, 0xda, &sos(r, i as u8));
        ecs(&mut o, r);
        if tail.contains("LONG") && i == 0 { let n = huge(r); for _ in 0..n { let b = r.next() as u8; o.push(b); if b == 0xff { o.push(0) } } }
        if !tail.contains("NOEOI") && r.chance(1, 6) { o.push(0xff); } // fill byte before the next marker
    }
    if !tail.contains("NOEOI") { o.extend([0xff, 0xd9]); if tail.contains("TRAIL") { let mut t = if r.chance(1, 2) { r.bytes(9) } else { b"\xff\xd8\xff".to_vec() }; t.extend([0xff, 0xe1, 0, 8]); t.extend(b"Exif\0\0"); if t[0] == 0xff { t.remove(2); seg(&mut t, 0xda, &[1, 1, 0, 0, 63, 0]); t.extend([1, 2, 0xff, 0xd9]) } o.extend(t); } }
    o
}
pub fn lex(b: &[u8], d: &Dict) -> Result<Lex, String> {
    let mut l = Lex::default();
    if !b.starts_with(&[0xff, 0xd8]) { return Err("no SOI".into()); }
    let mut p = 2;
    l.units.push(unit("SOI", ""));
    while p < b.len() {
        if b[p] != 0xff { return Err(format!("no marker at {p}")); }
        let mut q = p + 1;
        while b.get(q) == Some(&0xff) { q += 1; }
        let fill = q - p - 1;
        let m = *b.get(q).ok_or("truncated marker")?;
        if fill > 0 { l.units.push(unit("FILL", fill.to_string())); }
        if m == 0xd9 { l.units.push(unit("EOI", "")); p = q + 1; if p < b.len() { l.units.push(unit("TRAIL", dig(&b[p..]))); } return Ok(l); }
        if m == 0 || (0xd0..=0xd8).contains(&m) { return Err(format!("unexpected marker {m:02x}")); }
        let len = be16(b.get(q + 1..q + 3).ok_or("no length")?) as usize;
        if len < 2 { return Err("segment length < 2".into()); }
        let pay = b.get(q + 3..q + 1 + len).ok_or("segment overruns file")?;
        p = q + 1 + len;
        match m {
            0xe1 if pay.starts_with(b"Exif\0\0") => { l.carr.push(b[q - 1..p].to_vec()); l.units.push(unit("EXIF", d.id(&pay[6..]))) }
            0xe1 if pay.starts_with(XMP_NS) => l.units.push(unit("XMP", dig(pay))),
            0xec => l.units.push(unit("APP12", dig(pay))),
            0xed => l.units.push(unit("APP13", dig(pay))),
            0xda => {
                let s = p;
                while p < b.len() { if b[p] == 0xff { match b.get(p + 1) { Some(0) => p += 1, Some(x) if (0xd0..=0xd7).contains(x) => p += 1,
                    Some(0xff) => { let q = p + b[p..].iter().take_while(|x| **x == 0xff).count(); if b.get(q).is_some_and(|x| (0xd0..=0xd7).contains(x)) { p = q } else { break } }
                    _ => break } } p += 1; }
                let mut all = pay.to_vec(); all.extend(&b[s..p.min(b.len())]);
                l.units.push(unit("SOS", dig(&all)));
            }
            _ => l.units.push(unit(&format!("M{m:02X}"), dig(pay))),
        }
    }
    Ok(l)
}
