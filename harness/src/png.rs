use crate::cont::*;
use crate::util::*;
use crate::xmpx;
use miniz_oxide::deflate::compress_to_vec_zlib;
use miniz_oxide::inflate::decompress_to_vec_zlib;
pub const SIG: [u8; 8] = [0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a];
const RAW: &[u8] = b"Raw profile type exif";
const XMPK: &[u8] = b"XML:com.adobe.xmp";
pub fn chunk(o: &mut Vec<u8>, t: &[u8], d: &[u8]) {
    o.extend((d.len() as u32).to_be_bytes());
    let mut v = t.to_vec(); v.extend(d);
    o.extend(&v);
    o.extend(crc32(&v).to_be_bytes());
}
/// raw profile text in the layout ImageMagick / exiftool use
fn rawprofile(tiff: &[u8], header: bool, r: &mut Rng) -> Vec<u8> {
    let mut p = if header { b"Exif\0\0".to_vec() } else { vec![] };
    p.extend(tiff);
    let mut s = format!("\nexif\n{:8}\n", p.len());
    let width = if r.chance(1, 2) { 36 } else { usize::MAX };
    let upper = r.chance(1, 8);
    for (i, b) in p.iter().enumerate() { s += &if upper { format!("{b:02X}") } else { format!("{b:02x}") }; if (i + 1) % width == 0 { s.push('\n'); } }
    if !s.ends_with('\n') || r.chance(1, 2) { s.push('\n'); }
    s.into_bytes()
}
/// decodes a raw profile text: newline, name, newline, length, newline, hex
fn unraw(t: &[u8]) -> Result<Vec<u8>, String> {
    let s = std::str::from_utf8(t).map_err(|_| "raw profile: not ascii")?;
    let mut it = s.trim_start_matches('\n').splitn(3, '\n');
    if it.next().map(|x| x.trim()) != Some("exif") { return Err("raw profile: name".into()); }
    let len: usize = it.next().ok_or("raw profile: length")?.trim().parse().map_err(|_| "raw profile: length")?;
    let hex: Vec<u8> = it.next().ok_or("raw profile: data")?.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    if hex.len() % 2 != 0 || !hex.iter().all(|c| c.is_ascii_hexdigit()) { return Err("raw profile: hex".into()); }
    let v: Vec<u8> = hex.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    if v.len() != len { return Err(format!("raw profile: declared length {len} but {} bytes", v.len())); }
    Ok(v)
}
fn text(t: &str, key: &[u8], val: &[u8], comp: bool, r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let mut o = key.to_vec();
    o.push(0);
    match t {
        "tEXt" => o.extend(val),
        "zTXt" => { o.push(0); o.extend(compress_to_vec_zlib(val, r.below(11) as u8)); }
        _ => {
            o.extend([comp as u8, 0]);
            o.extend(*r.pick(&[&b""[..], b"", b"", b"en-GB", b"x-default", b"zh-Hant-TW-x-private"])); o.push(0);
            o.extend(r.pick(&["", "", "", "Schlüssel", "キーワード", &"translated keyword ".repeat(20)]).as_bytes()); o.push(0);
            if comp { o.extend(compress_to_vec_zlib(val, r.below(11) as u8)) } else { o.extend(val) }
        }
    }
    (t.as_bytes().to_vec(), o)
}
pub fn build(shape: &[String], d: &Dict, r: &mut Rng) -> Vec<u8> {
    let mut o = SIG.to_vec();
    chunk(&mut o, b"IHDR", &[0, 0, 0, 2, 0, 0, 0, 1, 8, 2, 0, 0, 0]);
    let mut idat = false;
    let put_idat = |o: &mut Vec<u8>, r: &mut Rng| { for _ in 0..r.range(1, 3) { let n = r.range(0, 60); chunk(o, b"IDAT", &r.bytes(n)); } };
    let mut trail = false;
    for s in shape {
        let (t, c): (Vec<u8>, Vec<u8>) = match s.as_str() {
            "IDAT" => { put_idat(&mut o, r); idat = true; continue }
            "TRAIL" => { trail = true; continue }
            "MANY" => { for _ in 0..r.range(257, 300) { let n = r.below(4); chunk(&mut o, b"prVt", &r.bytes(n)) } continue }
            "LONG" => { let n = huge(r); if !idat { chunk(&mut o, b"IDAT", &r.bytes(n)); idat = true } continue }
            "HUGE" => (b"prVt".to_vec(), { let n = huge(r); r.bytes(n) }),
            "gAMA" => (b"gAMA".to_vec(), vec![0, 0, 0xb1, 0x8f]),
            "pHYs" => (b"pHYs".to_vec(), r.bytes(9)),
            "tIME" => (b"tIME".to_vec(), r.bytes(7)),
            "PLTE" => (b"PLTE".to_vec(), { let n = 3 * r.range(1, 9); r.bytes(n) }),
            "prVt" => (r.pick(&[b"prVt", b"prVt", b"acTL", b"fcTL", b"fdAT", b"iCCP", b"eXIg", b"exIf", b"dSIG", b"caBX"]).to_vec(), { let n = r.below(40); r.bytes(n) }),
            "TXT" => {
                let n = if r.chance(1, 20) { r.range(4000, 70000) } else { r.below(60) };
                let v: Vec<u8> = (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect();
                let key: &[u8] = *r.pick(&[&b"Comment"[..], b"Raw profile type iptc", b"Raw profile type EXIF", b"Title", b"exif", b"Auteur \xe9", b"XML:com.adobe.xmq", b"Raw profile type exi", b"Raw profile type exif2", b"Raw profile type exif ", b"Raw", b"XML:com.adobe.xmp2", b"XML:com.adobe.xm", b"XML", b"A keyword of seventy-nine characters, the most that the specification of PNG has"]);
                let t = *r.pick(&["tEXt", "zTXt", "iTXt"]);
                let comp = r.chance(1, 2);
                text(t, key, &v, comp, r)
            }
            "XMPI" | "XMPC" | "XMPT" | "XMPZ" | "XMPN" => {
                let k = if s == "XMPN" { 0 } else { r.range(1, 3) };
                let v = xmpx::build(k, r);
                match s.as_str() { "XMPI" | "XMPN" => text("iTXt", XMPK, &v, false, r), "XMPC" => text("iTXt", XMPK, &v, true, r), "XMPT" => text("tEXt", XMPK, &v, false, r), _ => text("zTXt", XMPK, &v, true, r) }
            }
            "XMPB" => {
                // a packet nobody can make sense of
                let v = String::from_utf8(xmpx::build(2, r)).unwrap();
                match r.below(3) {
                    0 => text("iTXt", XMPK, v.replace("</rdf:RDF>", "</rdf:RDX>").as_bytes(), r.chance(1, 2), r),
                    1 => text("iTXt", XMPK, format!("<a><exif:b>{}", r.below(100)).as_bytes(), false, r),
                    _ => { let (t, mut c) = text("zTXt", XMPK, v.as_bytes(), true, r); let n = c.len() - r.range(5, 12); c.truncate(n); (t, c) }
                }
            }
            e if e.starts_with("eXIf:") => (b"eXIf".to_vec(), d.tiff[&e[5..]].clone()),
            e if e.starts_with("zEXIF:") => { let v = rawprofile(&d.tiff[&e[6..]], true, r); text("zTXt", RAW, &v, true, r) }
            e if e.starts_with("tEXIF:") => { let h = r.chance(2, 3); let v = rawprofile(&d.tiff[&e[6..]], h, r); text("tEXt", RAW, &v, true, r) }
            e if e.starts_with("iEXIF:") => { let v = rawprofile(&d.tiff[&e[6..]], true, r); let c = r.chance(1, 2); text("iTXt", RAW, &v, c, r) }
            _ => panic!("png shape {s}"),
        };
        chunk(&mut o, &t, &c);
    }
    if !idat { put_idat(&mut o, r); }
    chunk(&mut o, b"IEND", &[]);
    if trail { o.extend(r.bytes(11)); }
    o
}
struct Txt { key: Vec<u8>, head: Vec<u8>, val: Result<Vec<u8>, String> }
fn untext(t: &[u8], d: &[u8]) -> Result<Txt, String> {
    let z = d.iter().position(|b| *b == 0).ok_or("text chunk without NUL")?;
    let key = d[..z].to_vec();
    let inf = |b: &[u8]| decompress_to_vec_zlib(b).map_err(|_| "inflate".to_string());
    Ok(match t {
        b"tEXt" => Txt { key, head: vec![], val: Ok(d[z + 1..].to_vec()) },
        b"zTXt" => { if d.get(z + 1) != Some(&0) { return Err("zTXt compression method".into()); } Txt { key, head: vec![0], val: inf(&d[z + 2..]) } }
        _ => {
            let (f, m) = (*d.get(z + 1).ok_or("iTXt")?, *d.get(z + 2).ok_or("iTXt")?);
            let a = d[z + 3..].iter().position(|b| *b == 0).ok_or("iTXt lang")? + z + 3;
            let b = d[a + 1..].iter().position(|b| *b == 0).ok_or("iTXt tkey")? + a + 1;
            if f > 1 || m != 0 { return Err("iTXt flags".into()); }
            Txt { key, head: d[z + 1..b + 1].to_vec(), val: if f == 1 { inf(&d[b + 1..]) } else { Ok(d[b + 1..].to_vec()) } }
        }
    })
}
pub fn lex(b: &[u8], d: &Dict) -> Result<Lex, String> {
    if !b.starts_with(&SIG) { return Err("signature".into()); }
    let mut l = Lex::default();
    let mut p = 8;
    let mut n = 0;
    while p < b.len() {
        let len = be32(b.get(p..p + 4).ok_or("length")?) as usize;
        let t = b.get(p + 4..p + 8).ok_or("type")?;
        let pay = b.get(p + 8..(p + 8).checked_add(len).ok_or("len")?).ok_or("chunk overruns file")?;
        let crc = be32(b.get(p + 8 + len..p + 12 + len).ok_or("crc missing")?);
        if crc != crc32(&b[p + 4..p + 8 + len]) { l.p.push(format!("crc {}", String::from_utf8_lossy(t))); }
        p += 12 + len;
        let name = String::from_utf8_lossy(t).into_owned();
        if n == 0 && name != "IHDR" { return Err("first chunk is not IHDR".into()); }
        n += 1;
        match &name[..] {
            "eXIf" => l.units.push(unit("EXIF", d.id(pay))),
            "tEXt" | "zTXt" | "iTXt" => match untext(t, pay) {
                Err(e) => { l.p.push(format!("text chunk: {e}")); l.units.push(unit(&name, dig(pay))); }
                Ok(x) if x.key == RAW => { l.carr.push([name.as_bytes(), pay].concat()); match x.val.and_then(|v| unraw(&v)) { Err(e) => { l.p.push(e); l.units.push(unit("EXIF", "bad")); } Ok(v) => l.units.push(unit("EXIF", d.id(&v))) } }
                Ok(x) if x.key == XMPK => match x.val.and_then(|v| xmpx::digest(&v)) {
                    Err(_) => l.units.push(unit("XMPBAD", dig(pay))),
                    Ok((c, k)) => l.units.push(Unit { k: "XMP".into(), c: format!("{name}.{}.{c}", dig(&x.head)), x: k as i64 }),
                },
                Ok(_) => l.units.push(unit(&name, dig(pay))),
            },
            "IEND" => { l.units.push(unit("IEND", "")); if p < b.len() { l.units.push(unit("TRAIL", dig(&b[p..]))); } return Ok(l); }
            _ => l.units.push(unit(&name, dig(pay))),
        }
    }
    Err("no IEND".into())
}
