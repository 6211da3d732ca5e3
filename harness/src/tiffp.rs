//! Independent TIFF lexer and writer (does not use the library).
use crate::tagtab::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Ent { pub x: u16, pub f: u16, pub c: u32, pub inl: bool, pub off: usize, pub d: Vec<u8>, pub pos: usize }
#[derive(Clone, Debug)]
pub struct Ifd { pub g: G, pub n: u32, pub off: usize, pub end: usize, pub next: u32, pub ents: Vec<Ent>, pub data: Vec<(u16, usize, Vec<u8>)> }
#[derive(Clone, Debug)]
pub struct Graph { pub be: bool, pub len: usize, pub ifds: Vec<Ifd>, pub problems: Vec<String> }

fn r16(b: &[u8], p: usize, be: bool) -> Option<u16> { let s = b.get(p..p + 2)?; Some(if be { be16(s) } else { u16::from_le_bytes([s[0], s[1]]) }) }
fn r32(b: &[u8], p: usize, be: bool) -> Option<u32> { let s = b.get(p..p.checked_add(4)?)?; Some(if be { be32(s) } else { le32(s) }) }
fn ints(e: &Ent, be: bool) -> Vec<u32> {
    match e.f {
        3 => e.d.chunks_exact(2).map(|c| r16(c, 0, be).unwrap() as u32).collect(),
        4 => e.d.chunks_exact(4).map(|c| r32(c, 0, be).unwrap()).collect(),
        1 => e.d.iter().map(|x| *x as u32).collect(),
        _ => vec![],
    }
}

pub fn parse(b: &[u8]) -> Result<Graph, String> {
    if b.len() < 8 { return Err("short".into()); }
    let be = match &b[..4] { [0x49, 0x49, 0x2a, 0] => false, [0x4d, 0x4d, 0, 0x2a] => true, _ => return Err("header".into()) };
    let mut g = Graph { be, len: b.len(), ifds: vec![], problems: vec![] };
    let mut next = r32(b, 4, be).unwrap();
    let mut n = 0;
    let mut seen = vec![];
    while next != 0 {
        if seen.contains(&next) { return Err("cycle".into()); }
        seen.push(next);
        next = ifd(b, next as usize, be, G::GENERIC, n, &mut g)?;
        n += 1;
    }
    Ok(g)
}
fn ifd(b: &[u8], off: usize, be: bool, grp: G, n: u32, g: &mut Graph) -> Result<u32, String> {
    let cnt = r16(b, off, be).ok_or("ifd out of range")? as usize;
    let mut me = Ifd { g: grp, n, off, end: off + 2 + 12 * cnt + 4, next: 0, ents: vec![], data: vec![] };
    if me.end > b.len() { return Err(format!("ifd {}{} entries out of range", grp.name(), n)); }
    let mut subs = vec![];
    for i in 0..cnt {
        let p = off + 2 + 12 * i;
        let (x, f, c) = (r16(b, p, be).unwrap(), r16(b, p + 2, be).unwrap(), r32(b, p + 4, be).unwrap());
        let ff = F::from_code(f).ok_or(format!("format code {f} of tag {x:04x}"))?;
        let bytes = ff.size() as u64 * c as u64;
        let inl = bytes <= 4;
        let o = if inl { p + 8 } else { r32(b, p + 8, be).unwrap() as usize };
        let d = b.get(o..o + bytes as usize).ok_or(format!("value of tag {x:04x} out of range"))?.to_vec();
        let e = Ent { x, f, c, inl, off: o, d, pos: p };
        let sub = match (grp, x) { (G::GENERIC, 0x8769) => Some(G::EXIF), (G::GENERIC, 0x8825) => Some(G::GPS), (G::EXIF, 0xa005) => Some(G::INTEROP), _ => None };
        // of entries with the same tag the first one counts
        if let (Some(s), false) = (sub, me.ents.iter().any(|o: &Ent| o.x == x)) { subs.push((s, *ints(&e, be).first().ok_or("empty offset tag")? as usize)); }
        me.ents.push(e);
    }
    me.next = r32(b, me.end - 4, be).unwrap();
    for (ot, lt) in [(0x111u16, 0x117u16), (0x201, 0x202)] {
        let o = me.ents.iter().find(|e| e.x == ot).map(|e| ints(e, be));
        let l = me.ents.iter().find(|e| e.x == lt).map(|e| ints(e, be));
        match (o, l) {
            (Some(o), Some(l)) => {
                if o.len() != l.len() { return Err(format!("{} offsets but {} lengths for {ot:04x}", o.len(), l.len())); }
                for (o, l) in o.iter().zip(&l) {
                    let d = b.get(*o as usize..*o as usize + *l as usize).ok_or(format!("data of {ot:04x} out of range"))?;
                    me.data.push((ot, *o as usize, d.to_vec()));
                }
            }
            (None, None) => (),
            _ => g.problems.push(format!("unpaired {ot:04x}/{lt:04x}")),
        }
    }
    let next = me.next;
    g.ifds.push(me);
    for (s, o) in subs {
        if g.ifds.iter().any(|i| i.g == s && i.n == n) { return Err(format!("duplicate {} in IFD {n}", s.name())); }
        ifd(b, o, be, s, n, g)?;
    }
    Ok(next)
}

pub const OFFSET_TAGS: [(G, u16); 3] = [(G::GENERIC, 0x8769), (G::GENERIC, 0x8825), (G::EXIF, 0xa005)];

/// What the block says: all tags, offset tags excluded, data tags resolved.
pub fn content(g: &Graph) -> Vec<Located> {
    let mut out = vec![];
    for i in &g.ifds {
        for e in &i.ents {
            if OFFSET_TAGS.contains(&(i.g, e.x)) { continue; }
            let f = F::from_code(e.f).unwrap();
            let v = if e.x == 0x111 || e.x == 0x201 {
                if i.data.iter().any(|d| d.0 == e.x) || e.c == 0 { Val::D(i.data.iter().filter(|d| d.0 == e.x).map(|d| d.2.clone()).collect()) } else { continue }
            } else if f == F::STRING {
                let mut d = e.d.clone();
                while d.last() == Some(&0) { d.pop(); }
                Val::V(split(f, &d, g.be))
            } else { Val::V(split(f, &e.d, g.be)) };
            out.push(Located { n: i.n, t: TagSpec { g: i.g, x: e.x, f, v } });
        }
    }
    out.sort();
    out
}
pub fn canon(be: bool, l: &[Located]) -> String {
    let mut l: Vec<&Located> = l.iter().collect();
    l.sort();
    format!("{}{}", if be { "M" } else { "I" }, dig(format!("{l:?}").as_bytes()))
}

pub fn graph_json(g: &Graph) -> Value {
    json!({
        "be": g.be, "len": g.len, "p": g.problems,
        "ifds": g.ifds.iter().map(|i| json!({
            "g": i.g as u8 + 1, "n": i.n, "off": i.off, "end": i.end, "next": i.next,
            "ents": i.ents.iter().map(|e| json!({"x": e.x, "f": e.f, "c": e.c, "inl": e.inl, "off": e.off, "d": F::from_code(e.f).map_or(e.d.clone(), |f| compact(f, &e.d, g.be))})).collect::<Vec<_>>(),
            "data": i.data.iter().map(|d| json!({"x": d.0, "off": d.1, "len": d.2.len(), "h": dig(&d.2)})).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    })
}

/// How the writer lays the block out.
#[derive(Clone, Debug, Default)]
pub struct Layout { pub shuffle: bool, pub gaps: bool, pub unaligned: bool, pub nul: bool, pub short_ints: bool, pub unsorted: bool, pub junk_sub_next: bool, pub end_sub_nolink: bool,
    /// explicit order of the blocks (directories, then out of line values and data)
    pub order: Vec<usize>,
    /// equal out of line values are stored once
    pub share: bool }

struct Blk { size: usize, off: usize }

/// Writes a TIFF block holding `tags`. IFD numbers must be 0..=max.
pub fn write(be: bool, tags: &[Located], lay: &Layout, rng: &mut Rng) -> Vec<u8> {
    let maxn = tags.iter().map(|t| t.n).max().unwrap_or(0);
    let mut ifds: BTreeMap<(u32, u8), Vec<&Located>> = BTreeMap::new();
    for n in 0..=maxn { ifds.insert((n, 0), vec![]); }
    for t in tags {
        let gi = t.t.g as u8;
        ifds.entry((t.n, gi)).or_default().push(t);
        if t.t.g == G::INTEROP { ifds.entry((t.n, G::EXIF as u8)).or_default(); }
    }
    // entries: (hex, fmt, count, payload kind)
    enum P { Raw(Vec<u8>), Sub((u32, u8)), Ptrs(Vec<usize>) }
    struct E { x: u16, f: F, c: u32, p: P }
    let mut blocks: Vec<Blk> = vec![];
    let mut blob: Vec<Option<Vec<u8>>> = vec![];
    let mut ents: BTreeMap<(u32, u8), Vec<E>> = BTreeMap::new();
    let keys: Vec<(u32, u8)> = ifds.keys().cloned().collect();
    for k in &keys {
        let mut v = vec![];
        for t in &ifds[k] {
            let e = match &t.t.v {
                Val::D(parts) => {
                    let mut ptrs = vec![];
                    for p in parts { ptrs.push(blocks.len()); blocks.push(Blk { size: p.len(), off: 0 }); blob.push(Some(p.clone())); }
                    E { x: t.t.x, f: if lay.short_ints { F::INT16U } else { F::INT32U }, c: parts.len() as u32, p: P::Ptrs(ptrs) }
                }
                Val::V(c) => {
                    let mut d = raw(c, be);
                    let mut f = t.t.f;
                    let mut cnt = c.len() as u32;
                    if f == F::STRING && (lay.nul || c.is_empty()) { d.push(0); cnt += 1; }
                    if f == F::INT32U && lay.short_ints && c.iter().all(|x| x[0][0] == 0 && x[0][1] == 0) && (t.t.x == 0x117 || t.t.x == 0x202 || row(t.t.g, t.t.x).is_some_and(|r| r.fmt == F::INT32U)) {
                        f = F::INT16U;
                        d = raw(&c.iter().map(|x| vec![x[0][2..].to_vec()]).collect::<Vec<_>>(), be);
                    }
                    E { x: t.t.x, f, c: cnt, p: P::Raw(d) }
                }
            };
            v.push(e);
        }
        for (g, x, sub) in [(G::GENERIC, 0x8769u16, G::EXIF), (G::GENERIC, 0x8825, G::GPS), (G::EXIF, 0xa005, G::INTEROP)] {
            if k.1 == g as u8 && ifds.contains_key(&(k.0, sub as u8)) { v.push(E { x, f: F::INT32U, c: 1, p: P::Sub((k.0, sub as u8)) }); }
        }
        v.sort_by_key(|e| e.x);
        if lay.unsorted { for i in (1..v.len()).rev() { let j = rng.below(i + 1); v.swap(i, j); } }
        ents.insert(*k, v);
    }
    let mut ifd_blk: BTreeMap<(u32, u8), usize> = BTreeMap::new();
    for k in &keys { ifd_blk.insert(*k, blocks.len()); blocks.push(Blk { size: 2 + 12 * ents[k].len() + 4, off: 0 }); blob.push(None); }
    let mut val_blk: BTreeMap<(u32, u8, usize), usize> = BTreeMap::new();
    let mut shared: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for k in &keys {
        for (i, e) in ents[k].iter().enumerate() {
            let size = match &e.p { P::Raw(d) => d.len(), P::Sub(_) => 4, P::Ptrs(p) => e.f.size() * p.len() };
            if size > 4 {
                if let (true, P::Raw(d)) = (lay.share, &e.p) {
                    if let Some(b) = shared.get(d) { val_blk.insert((k.0, k.1, i), *b); continue; }
                    shared.insert(d.clone(), blocks.len());
                } val_blk.insert((k.0, k.1, i), blocks.len()); blocks.push(Blk { size, off: 0 }); blob.push(None); }
        }
    }
    let mut order: Vec<usize> = (0..blocks.len()).collect();
    // default order: IFDs first
    order.sort_by_key(|i| if ifd_blk.values().any(|b| b == i) { 0 } else { 1 });
    if !lay.order.is_empty() { order.sort_by_key(|i| lay.order.get(*i).copied().unwrap_or(1000 + *i)); }
    if lay.shuffle { for i in (1..order.len()).rev() { let j = rng.below(i + 1); order.swap(i, j); } }
    let mut pos = 8;
    if lay.gaps { pos += rng.below(9); }
    for i in &order {
        if !lay.unaligned && pos % 2 == 1 { pos += 1; }
        blocks[*i].off = pos;
        pos += blocks[*i].size;
        if lay.gaps && rng.chance(1, 2) { pos += rng.range(1, 7); }
    }
    let mut out = vec![0u8; pos];
    if lay.gaps { for b in out.iter_mut() { *b = 0xee; } }
    let w16 = |o: &mut Vec<u8>, p: usize, v: u16| o[p..p + 2].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    let w32 = |o: &mut Vec<u8>, p: usize, v: u32| o[p..p + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    out[..4].copy_from_slice(if be { &[0x4d, 0x4d, 0, 0x2a] } else { &[0x49, 0x49, 0x2a, 0] });
    w32(&mut out, 4, blocks[ifd_blk[&(0, 0)]].off as u32);
    for (i, b) in blob.iter().enumerate() { if let Some(b) = b { let o = blocks[i].off; out[o..o + b.len()].copy_from_slice(b); } }
    for k in &keys {
        let base = blocks[ifd_blk[k]].off;
        w16(&mut out, base, ents[k].len() as u16);
        for (i, e) in ents[k].iter().enumerate() {
            let p = base + 2 + 12 * i;
            w16(&mut out, p, e.x);
            w16(&mut out, p + 2, e.f.code());
            w32(&mut out, p + 4, e.c);
            let d: Vec<u8> = match &e.p {
                P::Raw(d) => d.clone(),
                P::Sub(s) => { let v = blocks[ifd_blk[s]].off as u32; if be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() } }
                P::Ptrs(v) if e.f == F::INT16U => v.iter().flat_map(|b| { let v = blocks[*b].off as u16; if be { v.to_be_bytes() } else { v.to_le_bytes() } }).collect(),
                P::Ptrs(v) => v.iter().flat_map(|b| { let v = blocks[*b].off as u32; if be { v.to_be_bytes() } else { v.to_le_bytes() } }).collect(),
            };
            if let Some(b) = val_blk.get(&(k.0, k.1, i)) {
                let o = blocks[*b].off;
                w32(&mut out, p + 8, o as u32);
                out[o..o + d.len()].copy_from_slice(&d);
            } else {
                for z in 8..12 { out[p + z] = 0; }
                out[p + 8..p + 8 + d.len()].copy_from_slice(&d);
            }
        }
        let np = base + 2 + 12 * ents[k].len();
        let next = if k.1 == 0 { ifd_blk.get(&(k.0 + 1, 0)).map(|b| blocks[*b].off as u32).unwrap_or(0) } else if lay.junk_sub_next { 0x00ab_cdef } else { 0 };
        w32(&mut out, np, next);
    }
    out
}
