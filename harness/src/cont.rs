//! Common parts of the container suites: units, the payload dictionary.
use crate::tagtab::*;
use crate::tiffp;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Unit { pub k: String, pub c: String, pub x: i64 }
pub fn unit(k: &str, c: impl Into<String>) -> Unit { Unit { k: k.to_string(), c: c.into(), x: 0 } }
#[derive(Clone, Debug, Default)]
pub struct Lex { pub units: Vec<Unit>, pub p: Vec<String>, /* EXIF carriers as stored */ pub carr: Vec<Vec<u8>> }
impl Lex {
    pub fn json(&self) -> (Value, Value) {
        (Value::Array(self.units.iter().map(|u| json!([u.k, u.c, u.x])).collect()), json!(self.p))
    }
}
/// Named metadata payloads of one case.
#[derive(Default)]
pub struct Dict { pub by_canon: HashMap<String, String>, pub tiff: HashMap<String, Vec<u8>>, pub be: HashMap<String, bool>, pub tags: HashMap<String, Vec<Located>>, pub red: std::collections::BTreeMap<String, String> }
impl Dict {
    pub fn add(&mut self, name: &str, be: bool, tags: Vec<Located>, rng: &mut Rng) {
        // what is in an image already was written by somebody else
        let old = name.starts_with('o');
        let mut any = |k: usize| old && rng.chance(1, k);
        let lay = tiffp::Layout { nul: true, gaps: any(3), unaligned: any(3), share: any(3), shuffle: rng.chance(1, 3), ..Default::default() };
        self.by_canon.insert(tiffp::canon(be, &tags), name.to_string());
        let mut block = tiffp::write(be, &tags, &lay, rng);
        if old { for _ in 0..rng.below(3) { block.push(rng.next() as u8); } }
        self.tiff.insert(name.into(), block);
        self.be.insert(name.into(), be);
        self.tags.insert(name.into(), tags);
    }
    /// Registers what is left of a payload when a HEIF or TIFF image gets
    /// cleared (the specification checks that it is the right part).
    pub fn reduce(&mut self, fmt: &str, name: &str) {
        if self.red.contains_key(name) { return; }
        let keep = |t: &Located| t.t.g == G::GENERIC && if fmt == "HEIF" { t.n == 0 && [0x112, 0x11a, 0x11b, 0x128].contains(&t.t.x) } else { [256, 257, 258, 259, 262, 273, 277, 278, 279, 282, 283, 296, 320, 513, 514].contains(&t.t.x) };
        let left: Vec<Located> = self.tags[name].iter().filter(|t| keep(t)).cloned().collect();
        let be = fmt == "TIFF" && self.be[name];
        let to = if left.is_empty() { "empty".to_string() } else {
            let c = tiffp::canon(be, &left);
            self.by_canon.entry(c).or_insert(format!("r.{name}")).clone()
        };
        if !self.tags.contains_key(&to) { self.tags.insert(to.clone(), left); self.be.insert(to.clone(), be); }
        self.red.insert(name.into(), to.clone());
        self.red.insert(to.clone(), to);
    }
    /// Where the tags of the payloads are: directory number, group, tag number.
    pub fn sets(&self) -> Value {
        Value::Object(self.red.keys().map(|k| (k.clone(), Value::Array(self.tags[k].iter().map(|t| json!([t.n, t.t.g as u8 + 1, t.t.x])).collect()))).collect())
    }
    /// Which payload is this TIFF block (optionally preceded by an EXIF header)?
    pub fn id(&self, b: &[u8]) -> String {
        let b = b.strip_prefix(b"Exif\0\0").unwrap_or(b);
        match tiffp::parse(b) {
            Err(e) => format!("bad:{e}"),
            Ok(g) => { let l = tiffp::content(&g); if l.is_empty() { return "empty".into(); } self.by_canon.get(&tiffp::canon(g.be, &l)).cloned().unwrap_or_else(|| format!("other:{}", tiffp::canon(g.be, &l))) }
        }
    }
}
pub fn mdict_id(d: &Dict, m: &little_exif::metadata::Metadata) -> String {
    let l = located(m);
    if l.is_empty() { return "empty".into(); }
    let be = m.get_endian() == little_exif::endian::Endian::Big;
    let c = tiffp::canon(be, &l);
    d.by_canon.get(&c).cloned().unwrap_or_else(|| format!("other:{c}"))
}
/// Abstract content of a library metadata object (offset tags left out).
pub fn located(m: &little_exif::metadata::Metadata) -> Vec<Located> {
    let mut v = vec![];
    for i in m.get_ifds() {
        let g = G::of(i.get_ifd_type());
        for t in i.get_tags() {
            let s = spec_of(t, g);
            if tiffp::OFFSET_TAGS.contains(&(g, s.x)) { continue; }
            v.push(Located { n: i.get_generic_ifd_nr(), t: TagSpec { g, ..s } });
        }
    }
    v.sort();
    v
}
/// Builds a library metadata object through its public interface.
pub fn lib_metadata(be: bool, tags: &[Located]) -> little_exif::metadata::Metadata {
    use little_exif::metadata::Metadata;
    let mut m = if be {
        let b = vec![0x4d, 0x4d, 0, 0x2a, 0, 0, 0, 8, 0, 0, 0, 0, 0, 0];
        Metadata::new_from_vec(&b, little_exif::filetype::FileExtension::TIFF).expect("empty big endian block")
    } else { Metadata::new() };
    for t in tags {
        if t.n == 0 && t.t.x != 0x111 { m.set_tag(build(&t.t)); } else { m.get_ifd_mut(t.t.g.lib(), t.n).set_tag(build(&t.t)); }
    }
    m
}

pub fn rand_val(f: F, count: usize, r: &mut Rng) -> Val {
    if f == F::STRING {
        let n = if r.chance(1, 6) { *r.pick(&[0usize, 3, 4, 5]) } else { count };
        let mut s = vec![];
        while s.len() < n { if r.chance(1, 12) && s.len() + 2 <= n { s.extend("é".bytes()) } else { s.push(r.range(0x20, 0x7e) as u8) } }
        return Val::V(s.into_iter().map(|b| vec![vec![b]]).collect());
    }
    Val::V((0..count).map(|_| f.fields().iter().map(|w| {
        match r.below(6) {
            0 => vec![0; *w],
            1 => { let mut v = vec![0; *w]; v[*w - 1] = r.next() as u8; v }
            2 => { if matches!(f, F::FLOAT) { 1.5f32.to_be_bytes().to_vec() } else if matches!(f, F::DOUBLE) { (-2.25f64).to_be_bytes().to_vec() } else { vec![0xff; *w] } }
            _ => { let mut v = r.bytes(*w); if matches!(f, F::FLOAT | F::DOUBLE) { v[0] &= 0x3f; } v }
        }
    }).collect()).collect())
}
pub fn rand_val_nonan(f: F, count: usize, r: &mut Rng) -> Val {
    let v = rand_val(f, count, r);
    if let (F::FLOAT | F::DOUBLE, Val::V(mut c)) = (f, v.clone()) {
        for x in c.iter_mut() { if x[0][0] & 0x7f == 0x7f { x[0][0] = 0x3f; } }
        return Val::V(c);
    }
    v
}
/// Random tags of IFD number `n`, at most `max`, every tag at most once.
pub fn rand_tags(n: u32, max: usize, groups: &[G], big: bool, r: &mut Rng) -> Vec<Located> {
    let mut v: Vec<Located> = vec![];
    for _ in 0..r.range(1, max) {
        let (g, x, f, cnt);
        if r.chance(1, 5) {
            g = *r.pick(groups);
            x = 0xc000 + r.below(0x300) as u16;
            f = *r.pick(&F::ALL);
            cnt = r.range(1, 9);
        } else {
            let cand: Vec<&Row> = TABLE.iter().filter(|t| t.w && groups.contains(&t.grp) && !tiffp::OFFSET_TAGS.contains(&(t.grp, t.hex))).collect();
            let t = r.pick(&cand);
            g = t.grp; x = t.hex; f = t.fmt;
            cnt = if t.count > 0 && r.chance(3, 4) { t.count as usize - (f == F::STRING) as usize } else if big && r.chance(1, 8) { r.range(100, 700) } else { r.range(1, 12) };
        }
        if v.iter().any(|t| t.t.g == g && t.t.x == x) { continue; }
        v.push(Located { n, t: TagSpec { g, x, f, v: rand_val_nonan(f, cnt.max(1), r) } });
    }
    v.sort();
    v
}
