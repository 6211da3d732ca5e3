//! TIFF images: pages with strips, described by the metadata itself.
//!
//! Shape: EXIF:<payload> first, then how the file is laid out:
//! SHUF shuffled blocks, GAPS unused bytes, ODD unaligned blocks, SHARE equal
//! values stored once, SHORT short integers where possible, JUNK links in sub
//! directories, TAIL unused bytes behind everything.
use crate::cont::*;
use crate::tagtab::*;
use crate::tiffp;
use crate::util::*;
pub fn build(s: &[String], d: &mut Dict, r: &mut Rng) -> Vec<u8> {
    let has = |t: &str| s.iter().any(|x| x == t);
    let name = s[0].split_once(':').map_or(&s[0][..], |x| x.1);
    let mut lay = tiffp::Layout { nul: true, shuffle: has("SHUF"), gaps: has("GAPS"), unaligned: has("ODD"), share: has("SHARE"), short_ints: has("SHORT"), junk_sub_next: has("JUNK"), ..Default::default() };
    let mut b = tiffp::write(d.be[name], &d.tags[name], &lay, r);
    // short offsets only reach the first 64 KiB
    if lay.short_ints && b.len() > 0xffff { lay.short_ints = false; b = tiffp::write(d.be[name], &d.tags[name], &lay, r); }
    if let Ok(g) = tiffp::parse(&b) { d.by_canon.insert(tiffp::canon(g.be, &tiffp::content(&g)), name.to_string()); }
    if has("TAIL") { let n = r.range(2, 40); b.extend(r.bytes(n)); }
    b
}
pub fn lex(b: &[u8], d: &Dict) -> Result<Lex, String> {
    let g = tiffp::parse(b)?;
    let mut l = Lex { units: vec![unit("EXIF", d.id(b))], p: g.problems.clone(), carr: vec![] };
    let mut end = 8;
    for i in &g.ifds {
        end = end.max(i.end);
        for e in &i.ents { if !e.inl { end = end.max(e.off + e.d.len()); } }
        for x in &i.data { if !x.2.is_empty() { end = end.max(x.1 + x.2.len()); } }
        if i.g == G::GENERIC { for x in [0x100, 0x101, 0x103, 0x106, 0x111, 0x117] { if i.n == 0 && !i.ents.iter().any(|e| e.x == x) { l.p.push(format!("page without {x:04x}")); } } }
    }
    // blocks may be padded to four bytes
    if b.len() > end + 3 || b[end..].iter().any(|x| *x != 0) { l.units.push(unit("TAIL", dig(&b[end..]))); }
    Ok(l)
}
pub fn tag(n: u32, g: G, x: u16, f: F, v: &[&[u8]]) -> Located { Located { n, t: TagSpec { g, x, f, v: Val::V(v.iter().map(|c| { let mut o = vec![]; let mut p = 0; for w in f.fields() { o.push(c[p..p + *w].to_vec()); p += *w; } o }).collect()) } } }
pub fn num(n: u32, x: u16, v: u32) -> Located { let t = row(G::GENERIC, x).unwrap(); if t.fmt == F::INT16U { tag(n, G::GENERIC, x, t.fmt, &[&(v as u16).to_be_bytes()]) } else { tag(n, G::GENERIC, x, t.fmt, &[&v.to_be_bytes()]) } }
/// The tags a page needs; strips of a large image are large.
pub fn page(n: u32, large: bool, r: &mut Rng) -> Vec<Located> {
    let mut v = vec![num(n, 0x100, r.range(1, 5000) as u32), num(n, 0x101, r.range(1, 300) as u32), num(n, 0x103, *r.pick(&[1, 2, 5, 32773])), num(n, 0x106, r.below(4) as u32), num(n, 0x116, r.range(1, 50) as u32), num(n, 0x128, 2)];
    for x in [0x11a, 0x11b] { v.push(tag(n, G::GENERIC, x, F::RATIONAL64U, &[&[0, 0, 0, r.range(1, 200) as u8, 0, 0, 0, 1]])); }
    for (x, p) in [(0x102, 2), (0x115, 3), (0x140, 5)] { if r.chance(1, p) { let k = if x == 0x115 { 1 } else { r.range(1, 4) }; let c: Vec<Vec<u8>> = (0..k).map(|_| r.bytes(2)).collect(); v.push(tag(n, G::GENERIC, x, F::INT16U, &c.iter().map(|x| &x[..]).collect::<Vec<_>>())); } }
    let k = if !large && r.chance(1, 6) { r.range(200, 400) } else { r.range(1, 5) };
    let parts: Vec<Vec<u8>> = (0..k).map(|_| { let n = if large && r.chance(1, 3) { huge(r) / 2 } else { r.range(0, 60) }; r.bytes(n) }).collect();
    let l: Vec<Vec<u8>> = parts.iter().map(|p| (p.len() as u32).to_be_bytes().to_vec()).collect();
    v.push(tag(n, G::GENERIC, 0x117, F::INT32U, &l.iter().map(|x| &x[..]).collect::<Vec<_>>()));
    v.push(Located { n, t: TagSpec { g: G::GENERIC, x: 0x111, f: F::INT32U, v: Val::D(parts) } });
    v
}
/// Payloads: o any number of pages, m one page, n pages and a thumbnail, h large strips, b big
/// endian, L a long value, q no page at all, u one page without one of the
/// tags a page needs, e nothing
pub fn payload(name: &str, r: &mut Rng) -> (bool, Vec<Located>) {
    let k = name.chars().next().unwrap();
    if k == 'e' { return (false, vec![]); }
    let mut t: Vec<Located> = vec![];
    let pages = match k { 'o' => r.range(1, 3), 'n' => r.range(2, 4), _ => 1 };
    for n in 0..pages as u32 {
        if k != 'q' { t.extend(page(n, k == 'h', r)); }
        for q in rand_tags(n, 5, &G::ALL, true, r) { if !t.iter().any(|p| p.n == n && p.t.g == q.t.g && p.t.x == q.t.x) { t.push(q) } }
        if k == 'q' { t.retain(|l| !(l.t.g == G::GENERIC && l.t.x == 0x11a)); }
        if k == 'n' && n == 1 || k == 'o' && r.chance(1, 4) {
            let th = { let n = r.range(1, 300); r.bytes(n) };
            t.retain(|l| !(l.n == n && l.t.g == G::GENERIC && (l.t.x == 0x201 || l.t.x == 0x202)));
            t.push(Located { n, t: TagSpec { g: G::GENERIC, x: 0x202, f: F::INT32U, v: Val::V(vec![vec![(th.len() as u32).to_be_bytes().to_vec()]]) } });
            t.push(Located { n, t: TagSpec { g: G::GENERIC, x: 0x201, f: F::INT32U, v: Val::D(vec![th]) } });
        }
    }
    if k == 'u' {
        let x = [0x100u16, 0x101, 0x103, 0x106, 0x111, 0x116, 0x117, 0x11a, 0x11b, 0x128][name[1..].chars().next().and_then(|c| c.to_digit(10)).unwrap_or(0) as usize];
        t.retain(|l| !(l.t.g == G::GENERIC && (l.t.x == x || (x == 0x117 && l.t.x == 0x111) || (x == 0x111 && l.t.x == 0x117 && r.chance(1, 2)))));
    }
    if k == 'L' { t.retain(|l| l.t.x != 0x927c); t.push(Located { n: 0, t: TagSpec { g: G::EXIF, x: 0x927c, f: F::UNDEF, v: Val::V((0..r.range(20000, 90000)).map(|i| vec![vec![(i * 7) as u8]]).collect()) } }); }
    for l in t.iter_mut() { if l.t.f == F::STRING && l.t.v == Val::V(vec![]) { l.t.v = Val::V(vec![vec![vec![b'x']]]); } }
    t.sort();
    (match k { 'b' => true, 'o' => r.chance(1, 2), _ => false }, t)
}
