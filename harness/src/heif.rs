//! HEIF / AVIF images: builder for many ways to store items, and an independent lexer.
use crate::cont::*;
use crate::util::*;
use std::collections::BTreeMap;

fn bx(t: &[u8], d: &[u8]) -> Vec<u8> { let mut o = ((d.len() + 8) as u32).to_be_bytes().to_vec(); o.extend(t); o.extend(d); o }
fn full(t: &[u8], v: u8, f: u32, d: &[u8]) -> Vec<u8> { let mut o = ((v as u32) << 24 | f).to_be_bytes().to_vec(); o.extend(d); bx(t, &o) }
fn put(o: &mut Vec<u8>, v: u64, n: u8) { o.extend(&v.to_be_bytes()[8 - n as usize..]) }

#[derive(Clone, Default)]
struct Item { id: u32, typ: [u8; 4], name: Vec<u8>, method: u16, dref: u16, parts: Vec<(u64, u64)>, base: u64, iv: u8, prot: u16, noloc: bool }
const PRE: [&str; 2] = ["FREE", "UUID"];

/// Tokens in data order: IMG THMB XMP PART ZERO SHARE GAP SAMP SPLIT EXIF:x EXIF2:x (a further Exif item)
/// TINY (one item in idat, tables that cannot hold positions or lengths)
/// XEXIF:x (an Exif item in idat or in parts); items elsewhere: IDAT REMOTE ITEMC;
/// the others choose layouts.
pub fn build(shape: &[String], d: &Dict, r: &mut Rng) -> Vec<u8> {
    let has = |t: &str| shape.iter().any(|s| s == t);
    let ver: u8 = if has("V2") || has("BIG") { 2 } else if has("V1") || has("TINY") || has("IDAT") || has("ITEMC") || has("X4") || has("X8") { 1 } else { 0 };
    let (o_sz, b_sz): (u8, u8) = if has("O0") { (0, if has("B8") { 8 } else { 4 }) } else { (if has("O8") { 8 } else { 4 }, if has("B8") { 8 } else if has("B4") || has("BASE") { 4 } else { 0 }) };
    let l_sz: u8 = if has("L8") { 8 } else { 4 };
    // one item, all of idat: the tables need not be able to say where it is
    let (o_sz, b_sz, l_sz) = if has("TINY") { *r.pick(&[(0, 0, 4), (0, 0, 8), (4, 0, 0), (8, 4, 0), (0, 4, 0), (0, 8, 0), (0, 0, 0)]) } else { (o_sz, b_sz, l_sz) };
    let x_sz: u8 = if has("X8") { 8 } else if has("X4") { 4 } else { 0 };
    // items and the data in the order of the tokens
    let mut items: Vec<Item> = vec![];
    let mut idat: Vec<u8> = vec![];
    let mut boxes: Vec<Vec<u8>> = vec![vec![]];          // payloads of the mdat boxes
    let mut samples: Vec<(usize, u64)> = vec![];
    let mut at: Vec<(usize, usize, usize, u64)> = vec![]; // item, part, mdat box, position in it
    let mut part = None;
    let mut last: Option<usize> = None;
    let mut exif = None;
    let any = shape.iter().any(|s| ["IMG", "HUGE", "MANY", "THMB", "XMP", "PART", "ZERO", "GAP", "SAMP"].contains(&s.as_str()) || s.starts_with("EXIF:") || s.starts_with("XEXIF:"));
    let mut further = vec![];
    for s in shape {
        let cur = boxes.len() - 1;
        let pos = boxes[cur].len() as u64;
        let bytes = |n0: usize, n1: usize, r: &mut Rng| { let n = r.range(n0, n1); r.bytes(n) };
        let mut add = |typ: &[u8; 4], name: &[u8], data: Vec<u8>, boxes: &mut Vec<Vec<u8>>, at: &mut Vec<(usize, usize, usize, u64)>, items: &mut Vec<Item>| {
            items.push(Item { typ: *typ, name: name.to_vec(), parts: vec![(0, data.len() as u64)], ..Default::default() });
            at.push((items.len() - 1, 0, cur, pos));
            boxes[cur].extend(data);
            items.len() - 1
        };
        match s.as_str() {
            "IMG" => { let v = bytes(1, 60, r); let n = r.pick(&[&b"\0"[..], b"image\0", "täst\0".as_bytes()]).to_vec(); let t = *r.pick(&[b"hvc1", b"hvc1", b"hvc1", b"hvc1", b"hvc1", b"exif", b"Exig", b"uri "]); last = Some(add(t, &n, v, &mut boxes, &mut at, &mut items)); }
            "HUGE" => { let n = huge(r); let v = r.bytes(n); last = Some(add(b"hvc1", b"\0", v, &mut boxes, &mut at, &mut items)); }
            "THMB" => { let v = bytes(1, 20, r); add(b"av01", b"\0", v, &mut boxes, &mut at, &mut items); }
            "XMP" => { let v = crate::xmpx::build(1, r); let n = if r.chance(1, 2) { &b"\0application/rdf+xml\0"[..] } else { b"xmp\0application/rdf+xml\0deflate\0" }; add(b"mime", n, v, &mut boxes, &mut at, &mut items); }
            "MANY" => for _ in 0..r.range(257, 300) { let pos = boxes[cur].len() as u64; let v = bytes(0, 2, r); items.push(Item { typ: *b"hvc1", name: b"\0".to_vec(), parts: vec![(0, v.len() as u64)], ..Default::default() }); at.push((items.len() - 1, 0, cur, pos)); boxes[cur].extend(v); },
            "ZERO" => { add(b"hvc1", b"z\0", vec![], &mut boxes, &mut at, &mut items); }
            "PART" => {
                let v = bytes(0, 12, r);
                let i = *part.get_or_insert_with(|| { items.push(Item { typ: *b"hvc1", name: b"parts\0".to_vec(), ..Default::default() }); items.len() - 1 });
                items[i].parts.push((0, v.len() as u64));
                at.push((i, items[i].parts.len() - 1, cur, pos));
                boxes[cur].extend(v);
            }
            "SHARE" => if let Some(i) = last { let a = *at.iter().find(|a| a.0 == i).unwrap(); let mut j = items[i].clone(); j.name = b"shared\0".to_vec(); items.push(j); at.push((items.len() - 1, 0, a.2, a.3)); },
            "GAP" => { let v = bytes(1, 9, r); boxes[cur].extend(v); }
            "SAMP" => { let v = bytes(8, 30, r); samples.push((cur, pos)); boxes[cur].extend(v); }
            "SPLIT" => if any { boxes.push(vec![]) },
            e if e.contains("EXIF") => {
                let mut v = match r.below(5) {
                    // now and then a long way to the TIFF header
                    _ if r.chance(1, 60) => { let n = r.range(65500, 70000); let mut v = (n as u32).to_be_bytes().to_vec(); v.extend(r.bytes(n)); v }
                    0 | 1 => { let mut v = vec![0, 0, 0, 6]; v.extend(b"Exif\0\0"); v }
                    2 => { let n = r.range(1, 20); let mut v = (n as u32).to_be_bytes().to_vec(); v.extend(r.bytes(n)); v }
                    _ => vec![0, 0, 0, 0],
                };
                let (kind, name) = e.split_once(':').unwrap();
                v.extend(&d.tiff[name]);
                let label: &[u8] = if r.chance(1, 3) { b"meta\0" } else { b"\0" };
                if kind == "XEXIF" && ver > 0 && r.chance(1, 2) {
                    items.push(Item { typ: *b"Exif", name: label.to_vec(), method: 1, parts: vec![(idat.len() as u64, v.len() as u64)], ..Default::default() });
                    idat.extend(v);
                    exif = Some(items.len() - 1);
                    continue;
                }
                let n = v.len() as u64;
                let i = add(b"Exif", label, v, &mut boxes, &mut at, &mut items);
                if kind == "EXIF2" { further.push(i) } else { exif = Some(i) }
                if kind == "XEXIF" {
                    let k = r.range(0, n as usize) as u64;
                    items[i].parts = vec![(0, k), (0, n - k)];
                    at.push((i, 1, cur, pos + k));
                }
            }
            "IDAT" => { let v = bytes(1, 12, r); items.push(Item { typ: *b"grid", name: b"\0".to_vec(), method: 1, parts: vec![(idat.len() as u64, v.len() as u64)], ..Default::default() }); idat.extend(v); }
            // described, but without any data of its own
            "NOLOC" => items.push(Item { typ: *b"iden", name: b"derived\0".to_vec(), noloc: true, ..Default::default() }),
            "REMOTE" => items.push(Item { typ: *b"hvc1", name: b"remote\0".to_vec(), dref: 1, parts: vec![(r.range(1, 1000) as u64, r.range(1, 1000) as u64)], ..Default::default() }),
            "ITEMC" => items.push(Item { typ: *b"iden", name: b"\0".to_vec(), method: 2, parts: vec![(r.below(900) as u64, r.range(1, 9) as u64)], ..Default::default() }),
            _ => (),
        }
    }
    if items.iter().all(|i| i.typ == *b"Exif" || i.noloc) { items.push(Item { typ: *b"grid", name: b"\0".to_vec(), method: if ver > 0 { 1 } else { 0 }, dref: if ver > 0 { 0 } else { 1 }, parts: vec![(idat.len() as u64, 4)], ..Default::default() }); idat.extend(r.bytes(4)); }
    // identities and order of the item tables
    let mut id = if has("BIG") { 65530 } else { 0 };
    let mut order: Vec<usize> = (0..items.len()).collect();
    if r.chance(1, 2) { shuffle(&mut order, r); }
    // the first Exif item is the one of the image
    if let Some(e) = exif { for f in &further { let (a, b) = (order.iter().position(|i| *i == e).unwrap(), order.iter().position(|i| i == f).unwrap()); if b < a { order.swap(a, b) } } }
    for i in &order { id += 1 + if r.chance(1, 3) { r.below(5) as u32 } else { 0 }; items[*i].id = id; items[*i].iv = if has("I3") || id > 0xffff { 3 } else { 2 }; }
    // the oldest form of an item info has no type
    if has("I0") { for i in items.iter_mut().filter(|i| i.typ == *b"mime" && i.id <= 0xffff) { i.iv = r.below(2) as u8; } }
    if has("PROT") { for i in items.iter_mut().filter(|i| i.typ != *b"Exif") { i.prot = r.below(3) as u16 * 257; } }
    if has("TOP") && ver < 2 { if let Some(i) = order.last() { items[*i].id = 0xffff; } }
    let mut iloc_order: Vec<usize> = order.iter().copied().filter(|i| !items[*i].noloc).collect();
    if r.chance(1, 3) { shuffle(&mut iloc_order, r); }
    let prim = items.iter().filter(|i| i.typ != *b"Exif" && i.typ != *b"mime" && !i.noloc).map(|i| i.id).next().unwrap_or(items[0].id);
    // references
    let big = has("IREF1") || id > 0xffff;
    let mut refs: Vec<(&[u8; 4], u32, Vec<u32>)> = vec![];
    for i in &items {
        if i.typ == *b"mime" { refs.push((b"cdsc", i.id, vec![prim])) }
        if i.typ == *b"av01" { refs.push((b"thmb", i.id, vec![prim])) }
        if i.noloc { refs.push((b"dimg", i.id, vec![prim])) }
        if i.typ == *b"grid" && i.id != prim { refs.push((b"dimg", i.id, items.iter().filter(|j| j.typ == *b"hvc1").map(|j| j.id).collect())) }
    }
    refs.retain(|x| !x.2.is_empty());
    for f in &further { let to = items.iter().filter(|i| i.typ == *b"hvc1" || i.typ == *b"av01").map(|i| i.id).last().unwrap_or(prim); refs.push((b"cdsc", items[*f].id, vec![to])); }
    if let Some(e) = exif { let k = r.below(refs.len() + 1); refs.insert(k, (b"cdsc", items[e].id, vec![prim])); }
    let iref = if refs.is_empty() && !has("IREF0") && !has("IREF1") { vec![] } else {
        let n = if big { 4 } else { 2 };
        let mut o = vec![];
        for (t, f, to) in &refs { let mut v = vec![]; put(&mut v, *f as u64, n); put(&mut v, to.len() as u64, 2); for x in to { put(&mut v, *x as u64, n) } o.extend(bx(*t, &v)); }
        full(b"iref", big as u8, 0, &o)
    };
    let hdlr = full(b"hdlr", 0, 0, &[&[0u8; 4][..], b"pict", &[0u8; 12], if r.chance(1, 2) { &b"\0"[..] } else { b"handler name\0" }].concat());
    let mut v = vec![]; put(&mut v, prim as u64, if has("PITM1") || id > 0xffff { 4 } else { 2 });
    let pitm = full(b"pitm", (v.len() == 4) as u8, 0, &v);
    let iinf_v = has("IINF1") as u8;
    let mut v = vec![]; put(&mut v, items.len() as u64, if iinf_v == 1 { 4 } else { 2 });
    for i in order.iter().map(|i| &items[*i]) {
        let mut e = vec![]; put(&mut e, i.id as u64, if i.iv == 3 { 4 } else { 2 }); put(&mut e, i.prot as u64, 2); if i.iv >= 2 { e.extend(i.typ); } e.extend(&i.name);
        v.extend(full(b"infe", i.iv, if i.typ == *b"Exif" { r.below(2) as u32 } else { 0 }, &e));
    }
    let iinf = full(b"iinf", iinf_v, 0, &v);
    let iprp = bx(b"iprp", &[bx(b"ipco", &[full(b"ispe", 0, 0, &r.bytes(8)), bx(b"colr", &r.bytes(12))].concat()), full(b"ipma", 0, 0, &r.bytes(9))].concat());
    let mut rest: Vec<Vec<u8>> = vec![pitm, iinf, iprp];
    if !iref.is_empty() { rest.push(iref); }
    if !idat.is_empty() { rest.push(bx(b"idat", &idat)); }
    if has("REMOTE") || r.chance(1, 3) { rest.push(bx(b"dinf", &full(b"dref", 0, 0, &[&[0, 0, 0, 1][..], &full(b"url ", 0, 1, b"")].concat()))); }
    if r.chance(1, 5) { rest.push(bx(b"grpl", &r.bytes(11))); }
    rest.push(b"iloc".to_vec());
    if r.chance(1, 3) { shuffle(&mut rest, r); }
    let iloc = |items: &[Item]| {
        let mut o = vec![o_sz << 4 | l_sz, b_sz << 4 | x_sz];
        put(&mut o, iloc_order.len() as u64, if ver == 2 { 4 } else { 2 });
        for i in iloc_order.iter().map(|i| &items[*i]) {
            put(&mut o, i.id as u64, if ver == 2 { 4 } else { 2 });
            if ver > 0 { put(&mut o, i.method as u64, 2); }
            put(&mut o, i.dref as u64, 2);
            put(&mut o, i.base, b_sz);
            put(&mut o, i.parts.len() as u64, 2);
            for (k, (p, l)) in i.parts.iter().enumerate() { put(&mut o, if i.method == 2 { 1 } else { k as u64 }, x_sz); put(&mut o, *p, o_sz); put(&mut o, *l, l_sz); }
        }
        full(b"iloc", ver, 0, &o)
    };
    let meta = |items: &[Item]| full(b"meta", 0, 0, &[hdlr.clone(), rest.iter().map(|b| if b == b"iloc" { iloc(items) } else { b.clone() }).collect::<Vec<_>>().concat()].concat());
    let brand: &[u8] = if has("AVIF") { b"avif" } else { b"heic" };
    let ftyp = bx(b"ftyp", &[brand, &[0; 4], b"mif1", brand].concat());
    // the samples may be those of several tracks, next to boxes of any size
    let tracks = if samples.len() > 1 { r.range(1, 2) } else { 1 };
    let cut = if tracks > 1 { r.range(1, samples.len() - 1) } else { samples.len() };
    let fill: Vec<Vec<u8>> = (0..5).map(|_| { let n = if samples.is_empty() { 0 } else { *r.pick(&[0usize, 0, 0, 3, 250, 300, 66000]) }; if n > 0 { bx(b"free", &r.bytes(n)) } else { vec![] } }).collect();
    let (swap, mixed, sz64) = (r.chance(1, 2), r.chance(1, 3), r.chance(1, 6));
    let big = |t: &[u8; 4], v: &[u8]| if sz64 { [&[0, 0, 0, 1][..], t, &(v.len() as u64 + 16).to_be_bytes(), v].concat() } else { bx(t, v) };
    let moov = |at: &[u64]| if at.is_empty() { vec![] } else {
        let trak = |k: usize, at: &[u64]| {
            let w = if has("CO64") != (mixed && k > 0) { 8 } else { 4 };
            let mut v = vec![]; put(&mut v, at.len() as u64, 4); for a in at { put(&mut v, *a, w) }
            let co = full(if w == 8 { b"co64" } else { b"stco" }, 0, 0, &v);
            let sz = full(b"stsz", 0, 0, &[0; 8]);
            let tbl = if swap { [co, fill[2 * k].clone(), sz] } else { [sz, fill[2 * k].clone(), co] }.concat();
            big(b"trak", &[full(b"tkhd", 0, 3, &[1; 9]), big(b"mdia", &[full(b"mdhd", 0, 0, &[2; 5]), fill[2 * k + 1].clone(), big(b"minf", &big(b"stbl", &tbl))].concat())].concat())
        };
        let traks = if tracks > 1 { [trak(0, &at[..cut]), trak(1, &at[cut..])].concat() } else { trak(0, at) };
        big(b"moov", &[full(b"mvhd", 0, 0, &[7; 20]), traks, fill[4].clone()].concat())
    };
    // top level order
    let mut top: Vec<(&str, usize)> = vec![("ftyp", 0)];
    for t in PRE { if has(t) && r.chance(1, 2) { top.push((t, 0)) } }
    let first = has("FIRST");
    let mv = r.chance(1, 2);
    let nb = if any { boxes.len() } else { 0 };
    if first && nb > 0 { top.push(("mdat", 0)); }
    if mv { top.push(("moov", 0)); }
    top.push(("meta", 0));
    if !mv { top.push(("moov", 0)); }
    for t in PRE { if has(t) && !top.iter().any(|x| x.0 == t) { top.push((t, 0)) } }
    for k in (first as usize).min(nb)..nb { top.push(("mdat", k)); }
    if r.chance(1, 3) && !has("MD0") { top.push(("skip", 0)); }
    let zero = has("MD0") && top.last().unwrap().0 == "mdat";
    let ntop = top.len();
    let (mut where_, mut meta_b, mut moov_b) = (vec![0u64; boxes.len()], meta(&items), moov(&vec![0; samples.len()]));
    let mut out = vec![];
    for round in 0..2 {
        out = vec![];
        for (k, (t, n)) in top.iter().enumerate() {
            match *t {
                "ftyp" => out.extend(&ftyp),
                "meta" => out.extend(&meta_b),
                "moov" => out.extend(&moov_b),
                "FREE" => out.extend(bx(b"free", &[0; 5])),
                "UUID" => out.extend(bx(b"uuid", b"0123456789abcdefEXIF?")),
                "skip" => out.extend(bx(b"skip", b"xyz")),
                _ => {
                    let b = &boxes[*n];
                    if has("MD64") { put(&mut out, 1, 4); out.extend(b"mdat"); put(&mut out, b.len() as u64 + 16, 8); }
                    else { put(&mut out, if zero && k + 1 == ntop { 0 } else { b.len() as u64 + 8 }, 4); out.extend(b"mdat"); }
                    where_[*n] = out.len() as u64;
                    out.extend(b);
                }
            }
        }
        if round == 1 { break; }
        for (i, p, b, pos) in &at { items[*i].parts[*p].0 = where_[*b] + pos; }
        for i in items.iter_mut().filter(|i| i.method == 0 && !i.noloc) {
            let min = i.parts.iter().map(|p| p.0).min().unwrap();
            if o_sz == 0 { i.base = min } else if has("BASE") && r.chance(3, 4) { i.base = match r.below(3) { 0 => min, 1 => min - r.below(min as usize + 1) as u64, _ => where_[0].min(min) } }
            for p in i.parts.iter_mut() { p.0 -= i.base; }
        }
        meta_b = meta(&items);
        moov_b = moov(&samples.iter().map(|(b, p)| where_[*b] + p).collect::<Vec<_>>());
    }
    if has("TRAIL") && !zero { out.extend([0, 0, 0]); }
    out
}
fn shuffle<T>(v: &mut [T], r: &mut Rng) { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }

/// The boxes in b[p..end]: (type, start, payload start, end, size form). None if they do not fill the range.
fn boxes(b: &[u8], mut p: usize, end: usize, top: bool) -> Result<(Vec<([u8; 4], usize, usize, usize, &'static str)>, usize), String> {
    let mut v = vec![];
    while p < end {
        if end - p < 8 { if top { return Ok((v, p)) } return Err("box header".into()); }
        let (mut len, mut h, mut form) = (be32(&b[p..]) as u64, 8, "");
        let t: [u8; 4] = b[p + 4..p + 8].try_into().unwrap();
        if len == 1 { if end - p < 16 { return Err("large size".into()) } len = be64(&b[p + 8..]); h = 16; form = ":64"; }
        else if len == 0 { if !top { return Err("open box inside of a box".into()) } len = (end - p) as u64; form = ":0"; }
        if len < h as u64 || len > (end - p) as u64 { return Err(format!("size of box {}", String::from_utf8_lossy(&t))); }
        v.push((t, p, p + h, p + len as usize, form));
        p += len as usize;
    }
    Ok((v, p))
}
struct Cur<'a> { b: &'a [u8], p: usize }
impl Cur<'_> {
    fn u(&mut self, n: u8) -> Result<u64, String> { let s = self.b.get(self.p..self.p + n as usize).ok_or("table ends early")?; self.p += n as usize; Ok(s.iter().fold(0, |a, x| a << 8 | *x as u64)) }
    fn end(&self) -> bool { self.p == self.b.len() }
}
pub fn lex(b: &[u8], d: &Dict) -> Result<Lex, String> {
    let mut l = Lex::default();
    let (top, tail) = boxes(b, 0, b.len(), true)?;
    let metas: Vec<_> = top.iter().filter(|t| &t.0 == b"meta").collect();
    if metas.len() != 1 { return Err(format!("{} meta boxes", metas.len())); }
    let m = metas[0];
    if m.3 < m.2 + 4 { return Err("meta".into()); }
    let (sub, _) = boxes(b, m.2 + 4, m.3, false)?;
    let one = |t: &[u8; 4]| -> Result<Option<&[u8]>, String> { let v: Vec<_> = sub.iter().filter(|s| &s.0 == t).collect(); if v.len() > 1 { return Err("repeated box in meta".into()); } Ok(v.first().map(|s| &b[s.2..s.3])) };
    let idat = one(b"idat")?.unwrap_or(&[]);
    let pitm = one(b"pitm")?.ok_or("no pitm")?;
    let mut c = Cur { b: pitm, p: 4 };
    let prim = c.u(if pitm[0] == 0 { 2 } else { 4 })? as u32;
    // item infos
    let iinf = one(b"iinf")?.ok_or("no iinf")?;
    let at = iinf.as_ptr() as usize - b.as_ptr() as usize;
    let mut c = Cur { b: iinf, p: 4 };
    let cnt = c.u(if iinf[0] == 0 { 2 } else { 4 })?;
    let (inf, _) = boxes(b, at + c.p, at + iinf.len(), false)?;
    if inf.len() as u64 != cnt { return Err(format!("iinf counts {cnt} items, holds {}", inf.len())); }
    let mut info: Vec<(u32, String, String)> = vec![];
    for i in &inf {
        let q = &b[i.2..i.3];
        let mut c = Cur { b: q, p: 4 };
        let id = c.u(if q[0] == 3 { 4 } else { 2 })? as u32;
        c.u(2)?;
        let t = if q[0] < 2 { b"mime" } else { q.get(c.p..c.p + 4).ok_or("infe")? };
        if !q[c.p + if q[0] < 2 { 0 } else { 4 }..].contains(&0) { l.p.push(format!("name of item {id} is not terminated")); }
        info.push((id, String::from_utf8_lossy(t).into_owned(), dig(q)));
    }
    // locations
    let iloc = one(b"iloc")?.ok_or("no iloc")?;
    let mut c = Cur { b: iloc, p: 4 };
    let ver = iloc[0];
    let (s1, s2) = (c.u(1)? as u8, c.u(1)? as u8);
    let (osz, lsz, bsz, xsz) = (s1 >> 4, s1 & 15, s2 >> 4, if ver == 0 { 0 } else { s2 & 15 });
    let n = c.u(if ver == 2 { 4 } else { 2 })?;
    let mut loc: BTreeMap<u32, (u16, u16, Vec<(u64, u64, u64)>)> = BTreeMap::new();
    for _ in 0..n {
        let id = c.u(if ver == 2 { 4 } else { 2 })? as u32;
        let method = if ver == 0 { 0 } else { c.u(2)? as u16 };
        let dref = c.u(2)? as u16;
        let base = c.u(bsz)?;
        let k = c.u(2)?;
        let mut e = vec![];
        for _ in 0..k { let x = c.u(xsz)?; let o = c.u(osz)?; let n = c.u(lsz)?; e.push((x, base + o, if lsz > 0 { n } else { (if method == 1 { idat.len() } else { b.len() } as u64).saturating_sub(base + o) })); }
        if loc.insert(id, (method, dref, e)).is_some() { l.p.push(format!("two locations of item {id}")); }
    }
    if !c.end() { return Err("iloc has more bytes than entries".into()); }
    for id in loc.keys() { if !info.iter().any(|i| i.0 == *id) { l.p.push(format!("location of unknown item {id}")); } }
    // the first Exif item is the carrier, if it is in one piece in the file
    let first = info.iter().find(|i| i.1 == "Exif").map(|i| i.0);
    let unusual = first.is_some_and(|e| loc.get(&e).is_some_and(|x| x.0 != 0 || x.1 != 0 || x.2.len() != 1));
    let exif_ids: Vec<u32> = first.into_iter().filter(|_| !unusual).collect();
    let mut area: Vec<(usize, usize)> = vec![];
    for e in &exif_ids { if let Some((0, 0, x)) = loc.get(e) { for (_, o, n) in x { area.push((*o as usize, (*o + *n) as usize)); } } }
    let mut tables = vec![];
    for (k, (id, t, raw)) in info.iter().enumerate() {
        if info[..k].iter().any(|i| i.0 == *id) { l.p.push(format!("two items {id}")); }
        let Some((method, dref, ext)) = loc.get(id) else {
            if exif_ids.contains(id) { l.p.push(format!("item {id} has no location")); } else { tables.push(unit("item", format!("{id} {raw} nowhere"))); }
            continue
        };
        let mut data = vec![];
        let mut lens = String::new();
        for (x, o, n) in ext {
            let (s, e) = (*o as usize, o.checked_add(*n).ok_or("extent")? as usize);
            lens += &format!(",{x}:{n}");
            if *dref != 0 || *method == 2 { lens += &format!("@{o}"); continue; }
            let src = if *method == 0 { b } else { idat };
            let Some(v) = src.get(s..e) else { l.p.push(format!("data of item {id} out of range")); continue };
            if *method == 0 && !top.iter().any(|t| t.2 <= s && e <= t.3 && &t.0 != b"meta" && &t.0 != b"ftyp") { l.p.push(format!("data of item {id} is not inside of a box")); }
            if !exif_ids.contains(id) && *method == 0 && s < e && area.iter().any(|a| s < a.1 && a.0 < e) { l.p.push(format!("item {id} overlaps the EXIF item")); }
            data.extend(v);
        }
        if exif_ids.contains(id) {
            l.carr.push(data.clone());
            let id = if data.len() < 4 { Err("Exif item too short".to_string()) } else { data.get((be32(&data) as usize).saturating_add(4)..).map(|x| d.id(x)).ok_or("Exif header offset".into()) };
            tables.push(unit("EXIF", id.unwrap_or_else(|e| { l.p.push(e); "bad".into() })));
        } else { tables.push(unit(if unusual && Some(*id) == first { "XEXIF" } else { "item" }, format!("{id} {raw} {method}/{dref}{lens} {}", dig(&data)))); }
    }
    // references
    let mut refs = vec![];
    let mut from_exif = vec![0; exif_ids.len()];
    if let Some(r) = one(b"iref")? {
        let at = r.as_ptr() as usize - b.as_ptr() as usize;
        let w = if r[0] == 0 { 2 } else { 4 };
        for x in boxes(b, at + 4, at + r.len(), false)?.0 {
            let mut c = Cur { b: &b[x.2..x.3], p: 0 };
            let f = c.u(w)? as u32;
            let k = c.u(2)?;
            let mut to = vec![]; for _ in 0..k { to.push(c.u(w)? as u32); }
            if !c.end() { return Err("reference box".into()); }
            for i in to.iter().chain([&f]) { if !info.iter().any(|x| x.0 == *i) { l.p.push(format!("reference to unknown item {i}")); } }
            let t = String::from_utf8_lossy(&x.0).into_owned();
            if let Some(k) = exif_ids.iter().position(|e| *e == f) { if t == "cdsc" && to.contains(&prim) { from_exif[k] += 1; } }
            else { refs.push(unit("ref", format!("v{} {t} {f}>{to:?}", r[0]))); }
        }
    }
    for (k, n) in from_exif.iter().enumerate() { if *n != 1 { l.p.push(format!("Exif item {} refers {n} times to the primary item", exif_ids[k])); } }
    // units in file order
    for t in &top {
        let name = String::from_utf8_lossy(&t.0).into_owned();
        let pay = &b[t.2..t.3];
        match &t.0 {
            b"meta" => {
                l.units.push(unit("meta", format!("{}{}", t.4, dig(&pay[..4]))));
                for s in &sub {
                    match &s.0 {
                        b"iinf" => { l.units.push(unit("iinf", format!("{}", iinf[0]))); l.units.extend(tables.clone()); }
                        b"iloc" => l.units.push(unit(if lsz == 0 || (osz == 0 && bsz == 0) { "ILOC0" } else { "iloc" }, format!("{ver}/{osz}/{lsz}/{bsz}/{xsz}"))),
                        b"iref" => l.units.extend(refs.clone()),
                        x => l.units.push(unit(&String::from_utf8_lossy(x), format!("{}{}", s.4, dig(&b[s.2..s.3])))),
                    }
                }
            }
            b"moov" => {
                let mut v = pay.to_vec();
                let mut chunks = String::new();
                chunk_offsets(&mut v, 0, pay.len(), &mut |o| { chunks += &b.get(o as usize..o as usize + 8).map(dig).unwrap_or("out of range".into()); chunks += " "; });
                l.units.push(unit("moov", format!("{}{} {chunks}", t.4, dig(&v))));
            }
            b"mdat" => {
                let keep: Vec<u8> = (t.2..t.3).filter(|p| !area.iter().any(|a| a.0 <= *p && *p < a.1)).map(|p| b[p]).collect();
                if !keep.is_empty() { l.units.push(unit("mdat", format!("{}{}", t.4, dig(&keep)))); }
            }
            _ => l.units.push(unit(&name, format!("{}{}", t.4, dig(pay)))),
        }
    }
    if tail < b.len() { l.units.push(unit("TRAIL", dig(&b[tail..]))); }
    Ok(l)
}
fn chunk_offsets(v: &mut [u8], p: usize, end: usize, f: &mut dyn FnMut(u64)) {
    let Ok((bs, _)) = boxes(v, p, end, false) else { return };
    for x in bs {
        let w = match &x.0 { b"trak" | b"mdia" | b"minf" | b"stbl" => { chunk_offsets(v, x.2, x.3, f); continue } b"stco" => 4, b"co64" => 8, _ => continue };
        for q in v[x.2 + 8..x.3].chunks_exact_mut(w) { f(q.iter().fold(0, |a, b| a << 8 | *b as u64)); q.fill(0); }
    }
}
pub fn robust_shapes() -> Vec<Vec<&'static str>> {
    vec![
        vec!["IMG", "EXIF:o1", "THMB"], vec!["IMG", "IDAT", "V1", "IREF1", "XMP"], vec!["FIRST", "PART", "EXIF:o1", "PART", "BASE", "O8", "B8", "L8"],
        vec!["IMG", "V2", "I3", "BIG", "EXIF:o1", "MD64", "IINF1", "X4"], vec!["SAMP", "IMG", "EXIF:o1", "SAMP", "MD0"], vec!["O0", "IMG", "EXIF:o1", "SPLIT", "THMB", "UUID", "TRAIL"],
    ]
}
