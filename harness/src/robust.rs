//! Robustness suite: damaged images, every operation, both interfaces.
use crate::cont::*;
use crate::container::*;
use crate::runner::*;
use crate::tagtab::*;
use crate::tiffp;
use crate::util::*;
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;
use serde_json::{json, Value};
use std::path::Path;

// ------------------------------------------------------------- pieces
/// The parts a container consists of; kind 0: raw bytes, 1: type and payload.
#[derive(Clone, Debug)]
pub struct Piece { pub raw: bool, pub t: Vec<u8>, pub d: Vec<u8> }
fn be(b: &[u8], p: usize, n: usize) -> Option<usize> { Some(b.get(p..p + n)?.iter().fold(0usize, |a, x| a << 8 | *x as usize)) }
/// leading bytes, pieces
pub fn split(fmt: &str, b: &[u8]) -> (Vec<u8>, Vec<Piece>) {
    let mut v = vec![];
    let mut rest = |v: &mut Vec<Piece>, p: usize| if p < b.len() { v.push(Piece { raw: true, t: vec![], d: b[p..].to_vec() }) };
    match fmt {
        "JPEG" => {
            let mut p = 2;
            while let (Some(0xff), Some(m)) = (b.get(p), b.get(p + 1)) {
                if *m == 0xff { v.push(Piece { raw: true, t: vec![], d: vec![0xff] }); p += 1; continue; }
                if matches!(m, 0xd9 | 0xda) { break; }
                let Some(n) = be(b, p + 2, 2) else { break };
                let Some(d) = b.get(p + 4..p + 2 + n) else { break };
                v.push(Piece { raw: false, t: vec![*m], d: d.to_vec() });
                p += 2 + n;
            }
            rest(&mut v, p);
            (b[..2.min(b.len())].to_vec(), v)
        }
        "PNG" => {
            let mut p = 8;
            while let Some(n) = be(b, p, 4) {
                let Some(d) = b.get(p + 8..p + 8 + n) else { break };
                if b.len() < p + 12 + n { break; }
                v.push(Piece { raw: false, t: b[p + 4..p + 8].to_vec(), d: d.to_vec() });
                p += 12 + n;
            }
            rest(&mut v, p);
            (b[..8.min(b.len())].to_vec(), v)
        }
        "WEBP" => {
            let mut p = 12;
            while p + 8 <= b.len() {
                let n = le32(&b[p + 4..p + 8]) as usize;
                let Some(d) = b.get(p + 8..p + 8 + n) else { break };
                v.push(Piece { raw: false, t: b[p..p + 4].to_vec(), d: d.to_vec() });
                p += 8 + n + n % 2;
            }
            rest(&mut v, p.min(b.len()));
            (vec![], v)
        }
        "JXL" | "HEIF" => {
            let mut p = 0;
            while let Some(n) = be(b, p, 4) {
                if n < 8 { break; }
                let Some(d) = b.get(p + 8..p + n) else { break };
                v.push(Piece { raw: false, t: b[p + 4..p + 8].to_vec(), d: d.to_vec() });
                p += n;
            }
            rest(&mut v, p);
            (vec![], v)
        }
        _ => (b.to_vec(), v),
    }
}
pub fn join(fmt: &str, head: &[u8], ps: &[Piece]) -> Vec<u8> {
    let mut o = head.to_vec();
    for p in ps {
        if p.raw { o.extend(&p.d); continue; }
        match fmt {
            "JPEG" => { o.push(0xff); o.extend(&p.t); o.extend(((p.d.len() + 2) as u16).to_be_bytes()); o.extend(&p.d); }
            "PNG" => crate::png::chunk(&mut o, &p.t, &p.d),
            "WEBP" => { o.extend(&p.t); o.extend((p.d.len() as u32).to_le_bytes()); o.extend(&p.d); if p.d.len() % 2 == 1 { o.push(0) } }
            _ => { o.extend(((p.d.len() + 8) as u32).to_be_bytes()); o.extend(&p.t); o.extend(&p.d); }
        }
    }
    if fmt == "WEBP" { let mut r = b"RIFF".to_vec(); r.extend(((o.len() + 4) as u32).to_le_bytes()); r.extend(b"WEBP"); r.extend(o); return r; }
    o
}
fn types(fmt: &str) -> Vec<&'static [u8]> {
    match fmt {
        "JPEG" => vec![b"\xe1", b"\xe0", b"\xec", b"\xd8", b"\xd9", b"\x00", b"\x01", b"\xd0", b"\xff", b"\xfe"],
        "PNG" => vec![b"zTXt", b"iTXt", b"tEXt", b"eXIf", b"IHDR", b"IEND", b"IDAT", b"abcd", b"\xff\xfe\x00\x01", b"PLTE"],
        "WEBP" => vec![b"VP8X", b"VP8 ", b"VP8L", b"EXIF", b"XMP ", b"ALPH", b"ANMF", b"abcd", b"\xff\xfe\x00\x01", b"ICCP"],
        "JXL" => vec![b"Exif", b"brob", b"jxlc", b"jxlp", b"ftyp", b"JXL ", b"xml ", b"\xff\xfe\x00\x01", b"jxll", b"free"],
        _ => vec![b"ftyp", b"meta", b"mdat", b"iinf", b"iloc", b"idat", b"free", b"\xff\xfe\x00\x01", b"uuid", b"moov"],
    }
}
// ------------------------------------------------------------- fields
/// Numbers in the image: (position, width, big endian)
fn fields(fmt: &str, b: &[u8]) -> Vec<(usize, usize, bool)> {
    let mut f = vec![];
    let (head, ps) = split(fmt, b);
    let mut p = if fmt == "WEBP" { f.push((4, 4, false)); 12 } else { head.len() };
    let mut blocks = vec![];
    for q in &ps {
        if q.raw { p += q.d.len(); continue; }
        let at = match fmt {
            "JPEG" => { f.extend([(p + 1, 1, true), (p + 2, 2, true)]); p + 4 }
            "PNG" => { f.extend([(p, 4, true), (p + 4, 4, true)]); p + 8 }
            "WEBP" => { f.extend([(p + 4, 4, false)]); p + 8 }
            _ => { f.extend([(p, 4, true)]); p + 8 }
        };
        // the first bytes of a payload are often numbers
        let inner: &[(usize, usize)] = match (fmt, &q.t[..]) {
            ("PNG", b"IHDR") => &[(0, 4), (8, 1)], ("PNG", b"zTXt" | b"iTXt" | b"tEXt") => &[(17, 1), (21, 1), (22, 1), (23, 1), (24, 1)],
            ("WEBP", b"VP8X") => &[(0, 1), (4, 1), (7, 1)], ("WEBP", b"VP8 ") => &[(0, 1), (3, 1), (6, 2), (8, 2)], ("WEBP", b"VP8L") => &[(0, 1), (1, 4)],
            ("JXL", b"Exif") => &[(0, 4)], ("JXL", b"brob") => &[(0, 4), (4, 1), (5, 1), (8, 4)], _ => &[],
        };
        for (o, w) in inner { if o + w <= q.d.len() { f.push((at + o, *w, fmt != "WEBP")); } }
        if fmt == "HEIF" && q.t == b"meta" { boxfields(b, at + 4, at + q.d.len(), &mut f); }
        for o in 0..q.d.len().min(40) { if matches!(&q.d[o..], [0x49, 0x49, 0x2a, 0, ..] | [0x4d, 0x4d, 0, 0x2a, ..]) { blocks.push((at + o, q.d.len() - o)); } }
        p = at + q.d.len() + match fmt { "PNG" => 4, "WEBP" => q.d.len() % 2, _ => 0 };
    }
    if fmt == "TIFF" { blocks.push((0, b.len())); }
    if fmt == "HEIF" { for o in 0..b.len().saturating_sub(8) { if matches!(&b[o..], [0x49, 0x49, 0x2a, 0, ..] | [0x4d, 0x4d, 0, 0x2a, ..]) { blocks.push((o, b.len() - o)); } } }
    for (at, n) in blocks { tiff_fields(&b[at..at + n], at, &mut f); }
    f.retain(|x| x.0 + x.1 <= b.len());
    f
}
/// boxes inside a HEIF meta box: sizes, versions, and every aligned number
fn boxfields(b: &[u8], mut p: usize, end: usize, f: &mut Vec<(usize, usize, bool)>) {
    while p + 8 <= end {
        let n = be(b, p, 4).unwrap_or(0);
        if n < 8 || p + n > end { break; }
        f.push((p, 4, true));
        let t = &b[p + 4..p + 8];
        if matches!(t, b"iinf" | b"iloc" | b"iref" | b"pitm" | b"infe" | b"hdlr" | b"iprp" | b"idat") {
            f.push((p + 8, 1, true));
            for q in (12..n.min(80)).step_by(2) { f.push((p + q, 2, true)); if q % 4 == 0 && q + 4 <= n { f.push((p + q, 4, true)); } }
        }
        if t == b"iinf" && n > 14 { boxfields(b, p + 14, p + n, f); }
        if t == b"iref" && n > 12 { boxfields(b, p + 12, p + n, f); }
        p += n;
    }
}
fn tiff_fields(b: &[u8], at: usize, f: &mut Vec<(usize, usize, bool)>) {
    let Ok(g) = tiffp::parse(b) else { return };
    f.extend([(at + 2, 2, g.be), (at + 4, 4, g.be)]);
    for i in &g.ifds {
        f.extend([(at + i.off, 2, g.be), (at + i.end - 4, 4, g.be)]);
        for e in &i.ents { f.extend([(at + e.pos, 2, g.be), (at + e.pos + 2, 2, g.be), (at + e.pos + 4, 4, g.be), (at + e.pos + 8, 4, g.be)]); }
    }
}
fn put(b: &mut [u8], f: (usize, usize, bool), v: u64) {
    for i in 0..f.1 { b[f.0 + if f.2 { f.1 - 1 - i } else { i }] = (v >> (8 * i)) as u8; }
}
fn get(b: &[u8], f: (usize, usize, bool)) -> u64 { (0..f.1).fold(0u64, |a, i| a << 8 | b[f.0 + if f.2 { i } else { f.1 - 1 - i }] as u64) }
fn class(v: usize, old: u64, b: &[u8], f: (usize, usize, bool)) -> u64 {
    let max = if f.1 == 8 { u64::MAX } else { (1u64 << (8 * f.1)) - 1 };
    let n = b.len() as u64;
    match v {
        0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 7, 5 => old.wrapping_sub(1), 6 => old + 1, 7 => max, 8 => max - 1, 9 => max / 2, 10 => max / 2 + 1,
        11 => n, 12 => n - f.0 as u64, 13 => n - f.0 as u64 - f.1 as u64, 14 => n + 1, 15 => old * 2, 16 => old ^ 0x80, 17 => 8, 18 => 12, 19 => max - 7, 20 => old + 2, 21 => f.0 as u64, 22 => 16, 23 => 255, _ => v as u64,
    }
}
pub const CLASSES: usize = 24;

/// Lengths and counts of records only.
fn sizes(fmt: &str, b: &[u8]) -> Vec<(usize, usize, bool)> {
    let mut f = fields(fmt, b);
    match fmt {
        "JPEG" => { let (head, ps) = split(fmt, b); let mut p = head.len(); let mut v = vec![]; for q in ps { if q.raw { p += q.d.len() } else { v.push((p + 2, 2, true)); p += 4 + q.d.len() } } f = v }
        "TIFF" => { let Ok(g) = tiffp::parse(b) else { return vec![] }; f = vec![]; for i in &g.ifds { f.push((i.off, 2, g.be)); for e in &i.ents { f.push((e.pos + 4, 4, g.be)); } } }
        "HEIF" => { let (head, ps) = split(fmt, b); let mut p = head.len(); let mut v = vec![]; for q in ps { if !q.raw { v.push((p, 4, true)); if q.t == b"meta" { nested(b, p + 12, p + 8 + q.d.len(), &[p], &mut |x, _| v.push((x, 4, true))); } p += 8 } p += q.d.len() } f = v }
        "PNG" => f.retain(|x| x.1 == 4),
        "WEBP" => f.retain(|x| x.1 == 4),
        _ => f.retain(|x| x.1 == 4),
    }
    f
}
/// Boxes inside boxes: position of the box and of those around it.
fn nested(b: &[u8], mut p: usize, end: usize, up: &[usize], f: &mut dyn FnMut(usize, &[usize])) {
    while p + 8 <= end {
        let n = be(b, p, 4).unwrap_or(0);
        if n < 8 || p + n > end { break; }
        f(p, up);
        let skip = match &b[p + 4..p + 8] { b"iinf" => if b.get(p + 8) == Some(&0) { 14 } else { 16 }, b"iref" => 12, b"iprp" | b"ipco" | b"moov" | b"trak" | b"mdia" | b"minf" | b"stbl" | b"dinf" => 8, _ => 0 };
        if skip > 0 && n > skip { let mut u = up.to_vec(); u.push(p); nested(b, p + skip, p + n, &u, f); }
        p += n;
    }
}

// ------------------------------------------------------------- faults
pub fn damage(fmt: &str, b: &mut Vec<u8>, fault: &Value, r: &mut Rng) {
    let kind = fault[0].as_str().unwrap();
    let (i, v) = (fault[1].as_u64().unwrap() as usize, fault[2].as_u64().unwrap() as usize);
    let piecewise = |b: &mut Vec<u8>, f: &mut dyn FnMut(&mut Vec<Piece>)| { let (h, mut p) = split(fmt, b); if !p.is_empty() { f(&mut p); *b = join(fmt, &h, &p); } };
    match kind {
        "none" => (),
        "empty" => b.clear(),
        "field" => { let f = fields(fmt, b); if !f.is_empty() { let f = f[i % f.len()]; let x = class(v % CLASSES, get(b, f), b, f); put(b, f, x); } }
        "size" => { let f = sizes(fmt, b); if !f.is_empty() { let f = f[i % f.len()]; let old = get(b, f); let v = v as u64; put(b, f, if v < 40 && v < old { old - 1 - v } else if v < 40 { old + v } else { v - 40 }); } }
        "nest" => { // a box inside a box ends early, the boxes around it are as long as they say
            let mut all = vec![];
            let (head, ps) = split(fmt, b);
            let mut p = head.len();
            for q in &ps { if !q.raw { if matches!(&q.t[..], b"meta" | b"moov") { nested(b, p + if q.t == b"meta" { 12 } else { 8 }, p + 8 + q.d.len(), &[p], &mut |x, up| all.push((x, up.to_vec()))); } p += 8; } p += q.d.len(); }
            if !all.is_empty() {
                let (x, up) = &all[i % all.len()];
                let n = be(b, *x, 4).unwrap();
                let keep = 8 + if v < 24 { v } else { (n - 8).saturating_sub(v - 23) };
                if keep < n {
                    b.drain(x + keep..x + n);
                    put(b, (*x, 4, true), keep as u64);
                    for u in up { let m = get(b, (*u, 4, true)); put(b, (*u, 4, true), m - (n - keep) as u64); }
                }
            }
        }
        "cut" => { // near the start of something, or anywhere
            let f = fields(fmt, b);
            let n = if v < 4 && !f.is_empty() { f[i % f.len()].0 + v } else { i * b.len() / 40 + v };
            b.truncate(n);
        }
        "short" => piecewise(b, &mut |p| { let k = i % p.len(); p[k].d.truncate(v); }),
        "grow" => { let x = r.bytes(v); piecewise(b, &mut |p| { let k = i % p.len(); p[k].d.extend(&x); }) }
        "dup" => piecewise(b, &mut |p| { let k = i % p.len(); let q = p[k].clone(); for _ in 0..=v { p.insert(k, q.clone()) } }),
        "del" => piecewise(b, &mut |p| { let k = i % p.len(); p.remove(k); }),
        "swap" => piecewise(b, &mut |p| { let n = p.len(); p.swap(i % n, v % n); }),
        "type" => { let t = types(fmt); piecewise(b, &mut |p| { let k = i % p.len(); p[k].t = t[v % t.len()].to_vec(); }) }
        "tail" => { let x = match v { 0 => vec![0], 1 => vec![0xff], 2 => vec![0xff, 0xe1], 3 => vec![0; 9], 4 => b"\0\0\0\x08free".to_vec(), 5 => vec![0, 0, 0, 0], 6 => b"EXIF\xff\xff\xff\xff".to_vec(), _ => { let x = r.bytes(i + 1); x } }; b.extend(x) }
        "byte" => for _ in 0..=i % 5 { if !b.is_empty() { let k = r.below(b.len()); b[k] = match v % 4 { 0 => 0, 1 => 0xff, 2 => b[k] ^ (1 << r.below(8)), _ => r.next() as u8 }; } },
        "splice" => for _ in 0..=i % 3 { if b.len() > 4 { let a = r.below(b.len()); let n = r.below((b.len() - a).min(30)) + 1; if v % 2 == 0 { b.drain(a..(a + n).min(b.len())); } else { let x = b[a..(a + n).min(b.len())].to_vec(); let at = r.below(b.len()); b.splice(at..at, x); } } },
        "text" => { // the content of a PNG raw profile or XMP text
            let x: &[u8] = [&b""[..], b"\n", b"\nexif\n", b"\nexif\n\n", b"\nexif\n       8\n4", b"\nexif\n       8\n45786966zz", b"\nexif\n 99999999999999999999\n4578", b"\nexif\n      -1\n45786966", b"\nexif\n 4294967295\n457869660000", b"exif 8 45786966", b"\nexif\n       6\n\xc3\xa9\xc3\xa9", b"<a", b"<x:a xmlns:x='1'", b"</exif:a>", b"<exif:a>", b"\xff\xff\xff"][v % 16];
            piecewise(b, &mut |p| {
                let t: Vec<usize> = (0..p.len()).filter(|k| matches!(&p[*k].t[..], b"zTXt" | b"iTXt" | b"tEXt")).collect();
                if t.is_empty() { return; }
                let q = &mut p[t[i % t.len()]];
                let key: Vec<u8> = q.d.iter().take_while(|c| **c != 0).cloned().collect();
                let mut d = key; d.push(0);
                match &q.t[..] { b"tEXt" => d.extend(x), b"zTXt" => { d.push(0); d.extend(miniz_oxide::deflate::compress_to_vec_zlib(x, 6)) } _ => { if i % 2 == 0 { d.extend([1, 0, 0, 0]); d.extend(miniz_oxide::deflate::compress_to_vec_zlib(x, 6)) } else { d.extend([0, 0, 0, 0]); d.extend(x) } } }
                q.d = d;
            })
        }
        k => panic!("fault {k}"),
    }
}

// ---------------------------------------------------------- execution
fn sides(case: &Value) -> (String, FileExtension, String) {
    let declared = case["as"].as_str().unwrap_or(case["fmt"].as_str().unwrap()).to_string();
    let f = match declared.as_str() { "PNGI" => FileExtension::PNG { as_zTXt_chunk: false }, "NAKED" => FileExtension::NAKED_JXL, d => ft(d) };
    let e = match declared.as_str() { "PNGI" => "png", "NAKED" => "jxl", d => ext(d) }.to_string();
    (declared, f, e)
}
/// What kind of image this is by its first bytes.
pub fn detect(b: &[u8]) -> &'static str {
    let s = |p: &[u8]| b.starts_with(p);
    if b.len() < 4 { "" }
    else if s(&[0x89, b'P', b'N', b'G']) { "PNG" }
    else if s(&[0xff, 0xd8]) { "JPEG" }
    else if s(b"II\x2a\0") || s(b"MM\0\x2a") { "TIFF" }
    else if s(b"RIFF") && b.get(8..12) == Some(b"WEBP") { "WEBP" }
    else if s(&[0xff, 0x0a]) { "NAKED" }
    else if s(&crate::jxl::SIG) { "JXL" }
    else if b.get(4..8) == Some(b"ftyp") && matches!(b.get(8..12), Some(b"heic" | b"heif" | b"avif")) { "HEIF" }
    else { "" }
}
pub fn run(case: &Value, st: &mut Steps, scratch: &str) -> Value {
    let fmt = case["fmt"].as_str().unwrap();
    let seed = case["seed"].as_u64().unwrap();
    let mut d = Dict::default();
    for n in ["o1", "o2", "m1"] { let (be, tags) = if fmt == "TIFF" { crate::tiffile::payload(n, &mut Rng::new(seed_of(n, seed))) } else { payload(n, &mut Rng::new(seed_of(n, seed))) }; d.add(n, be, tags, &mut Rng::new(seed)); }
    let shape: Vec<String> = match case["shape"].as_u64() { // a number selects one of the shapes
        Some(i) => { let v = shapes(fmt); v[i as usize % v.len()].iter().map(|s| s.to_string()).collect() }
        None => case["shape"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
    };
    let mut r = Rng::new(seed_of("damage", seed));
    let mut img = build_image(fmt, &shape, &mut d, &mut Rng::new(seed_of("image", seed)));
    for f in case["faults"].as_array().unwrap() { damage(fmt, &mut img, f, &mut r); }
    if let Ok(p) = std::env::var("LEXH_DUMP") { std::fs::write(p, &img).unwrap(); }
    let (declared, ft, ex) = sides(case);
    let path = format!("{scratch}/r.{ex}");
    let p = Path::new(&path);
    let md = lib_metadata(d.be["m1"], &d.tags["m1"]);
    let mut ev = vec![];
    let mut ops = vec!["read", "write", "clear"];
    ops.extend(if declared == "JPEG" || seed % 8 == 0 { vec!["clear12", "clear13"] } else { vec![] });
    for op in ops {
        let mut obs = vec![];
        for file in [false, true] {
            let mut buf = img.clone();
            if file { std::fs::write(p, &img).unwrap(); }
            let mut rd = String::new();
            let (res, peak) = match (op, file) {
                ("read", _) => { let (x, m, k) = st.heavy(|| if file { Metadata::new_from_path(p) } else { Metadata::new_from_vec(&buf, ft) }); if let Some(m) = m { rd = mdict_id(&d, &m); } (x, k) }
                ("write", false) => { let (x, _, k) = st.heavy(|| md.write_to_vec(&mut buf, ft)); (x, k) }
                ("write", true) => { let (x, _, k) = st.heavy(|| md.write_to_file(p)); (x, k) }
                ("clear", false) => { let (x, _, k) = st.heavy(|| Metadata::clear_metadata(&mut buf, ft)); (x, k) }
                ("clear", true) => { let (x, _, k) = st.heavy(|| Metadata::file_clear_metadata(p)); (x, k) }
                ("clear12", false) => { let (x, _, k) = st.heavy(|| Metadata::clear_app12_segment(&mut buf, ft)); (x, k) }
                ("clear12", true) => { let (x, _, k) = st.heavy(|| Metadata::file_clear_app12_segment(p)); (x, k) }
                ("clear13", false) => { let (x, _, k) = st.heavy(|| Metadata::clear_app13_segment(&mut buf, ft)); (x, k) }
                (_, _) => { let (x, _, k) = st.heavy(|| Metadata::file_clear_app13_segment(p)); (x, k) }
            };
            if file { buf = std::fs::read(p).unwrap_or_default(); }
            let (k, msg) = res.split_once(':').unwrap_or((&res, ""));
            obs.push(json!({"res": k, "msg": msg, "same": buf == img, "h": dig(&buf), "rd": rd, "peak": peak / 1024}));
        }
        let f = obs.pop().unwrap();
        ev.push(json!({"op": op, "vec": obs[0], "file": f}));
    }
    let _ = std::fs::remove_file(&path);
    let mut c = case.clone();
    c["shape"] = json!(shape);
    for k in ["id", "suite", "stop"] { c.as_object_mut().unwrap().remove(k); }
    json!({"id": case["id"], "case": c, "len": img.len(), "as": declared, "det": detect(&img), "ev": ev})
}
pub fn shapes(fmt: &str) -> Vec<Vec<&'static str>> {
    match fmt {
        "JPEG" => vec![vec!["APP0", "EXIF:o1", "XMP", "APP12", "APP13", "COM"], vec!["EXIF:o1", "APP1X", "FILL", "EXIF:o2", "PROG", "TRAIL"], vec!["APP13", "APP12", "NOEOI"]],
        "PNG" => vec![vec!["gAMA", "zEXIF:o1", "XMPI", "XMPC"], vec!["XMPZ", "iEXIF:o1", "eXIf:o2", "TXT"], vec!["tEXIF:o1", "XMPT", "PLTE"], vec!["eXIf:o1", "TRAIL"]],
        "WEBP" => vec![vec!["LOSSY"], vec!["LOSSLESS"], vec!["X", "ICCP", "VP8", "EXIF:o1", "XMP"], vec!["X", "ANIM", "ANMF", "EXIF:o1", "UNK", "EXIF:o2"]],
        "JXL" => vec![vec!["jxll", "EXIF:o1", "jxlc"], vec!["jxlc64", "BEXIF:o1", "xml", "EXIF:o2"], vec!["bxml", "tiny", "jxlp", "EXIF:o1", "jxlc0"], vec!["NAKED"]],
        "HEIF" => crate::heif::robust_shapes(),
        "TIFF" => vec![vec!["o1"], vec!["o2"]],
        _ => panic!(),
    }
}
pub const FMTS: [&str; 6] = ["JPEG", "PNG", "WEBP", "JXL", "HEIF", "TIFF"];
pub fn rand_case(fmt: &str, r: &mut Rng) -> Value {
    let sh = shapes(fmt);
    let shape = r.pick(&sh).clone();
    let n = *r.pick(&[1, 1, 2, 2, 3]);
    let faults: Vec<Value> = (0..n).map(|_| { let k = *r.pick(&["field", "field", "field", "field", "size", "size", "nest", "cut", "short", "grow", "dup", "del", "swap", "type", "tail", "byte", "byte", "splice", "text"]); json!([k, r.below(120), r.below(32)]) }).collect();
    let mut v = json!({"fmt": fmt, "seed": r.below(1 << 30), "shape": shape, "faults": faults});
    if r.chance(1, 12) { v["as"] = json!(*r.pick(&["JPEG", "PNG", "PNGI", "WEBP", "JXL", "HEIF", "TIFF", "NAKED"])); }
    v
}
