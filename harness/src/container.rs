//! Container suite: runs histories of write / clear / edit operations on one
//! image, through the in-memory and the file interface, and projects every
//! state of the image into the units of the specification.
use crate::cont::*;
use crate::runner::*;
use crate::tagtab::*;
use crate::util::*;
use crate::{heif, jpeg, jxl, png, tiffile, webp};
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;
use serde_json::{json, Value};
use std::path::Path;

pub fn ft(fmt: &str) -> FileExtension {
    match fmt { "JPEG" => FileExtension::JPEG, "PNG" => FileExtension::PNG { as_zTXt_chunk: true }, "WEBP" => FileExtension::WEBP, "JXL" => FileExtension::JXL, "HEIF" => FileExtension::HEIF, "TIFF" => FileExtension::TIFF, _ => panic!("fmt {fmt}") }
}
pub fn ext(fmt: &str) -> &'static str { match fmt { "JPEG" => "jpg", "PNG" => "png", "WEBP" => "webp", "JXL" => "jxl", "HEIF" => "heic", "TIFF" => "tiff", _ => panic!() } }
pub fn build_image(fmt: &str, shape: &[String], d: &mut Dict, r: &mut Rng) -> Vec<u8> {
    match fmt { "JPEG" => jpeg::build(shape, d, r), "PNG" => png::build(shape, d, r), "WEBP" => webp::build(shape, d, r), "JXL" => jxl::build(shape, d, r), "HEIF" => heif::build(shape, d, r), "TIFF" => tiffile::build(shape, d, r), _ => panic!() }
}
pub fn lex(fmt: &str, b: &[u8], d: &Dict) -> Lex {
    let l = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match fmt { "JPEG" => jpeg::lex(b, d), "PNG" => png::lex(b, d), "WEBP" => webp::lex(b, d), "JXL" => jxl::lex(b, d), "HEIF" => heif::lex(b, d), "TIFF" => tiffile::lex(b, d), _ => panic!() })).unwrap_or(Err("lexer panic".into()));
    l.unwrap_or_else(|e| Lex { p: vec![format!("lex:{e}")], ..Default::default() })
}
pub fn payload(name: &str, r: &mut Rng) -> (bool, Vec<Located>) {
    let g = G::ALL;
    let k = name.chars().next().unwrap();
    let mut t = match k {
        'e' => return (false, vec![]),
        'B' => { let n = r.range(66000, 90000); vec![Located { n: 0, t: TagSpec { g: G::GENERIC, x: 0x10e, f: F::STRING, v: Val::V((0..n).map(|i| vec![vec![b'a' + (i % 26) as u8]]).collect()) } }] }
        // around the size of a JPEG segment
        'F' => { let n = r.range(65470, 65496); vec![Located { n: 0, t: TagSpec { g: G::EXIF, x: 0x927c, f: F::UNDEF, v: Val::V((0..n).map(|i| vec![vec![(i * 5) as u8]]).collect()) } }] }
        'L' => { let n = r.range(20000, 40000); vec![Located { n: 0, t: TagSpec { g: G::EXIF, x: 0x927c, f: F::UNDEF, v: Val::V((0..n).map(|i| vec![vec![(i * 7) as u8]]).collect()) } }] }
        _ => rand_tags(0, 7, &g, true, r),
    };
    // what follows a large value is far away
    if (k == 'B' || k == 'L') && r.chance(2, 3) { for q in rand_tags(0, 7, &g, false, r) { if !t.iter().any(|p| p.t.g == q.t.g && p.t.x == q.t.x) { t.push(q) } } }
    if k == 'n' || ((k == 'o' || k == 'B' || k == 'L') && r.chance(1, 3)) {
        for i in 1..=r.range(1, 2) as u32 {
            let mut u = rand_tags(i, 4, &g, false, r);
            if !u.iter().any(|t| t.t.g == G::GENERIC) { u.push(Located { n: i, t: TagSpec { g: G::GENERIC, x: 0x112, f: F::INT16U, v: Val::V(vec![vec![vec![0, 1]]]) } }); }
            if i == 1 && r.chance(1, 2) {
                let th = { let n = r.range(1, 300); r.bytes(n) };
                u.push(Located { n: i, t: TagSpec { g: G::GENERIC, x: 0x202, f: F::INT32U, v: Val::V(vec![vec![(th.len() as u32).to_be_bytes().to_vec()]]) } });
                u.push(Located { n: i, t: TagSpec { g: G::GENERIC, x: 0x201, f: F::INT32U, v: Val::D(vec![th]) } });
            }
            t.extend(u);
        }
    }
    for l in t.iter_mut() { if l.t.f == F::STRING && l.t.v == Val::V(vec![]) { l.t.v = Val::V(vec![vec![vec![b'x']]]); } }
    t.sort();
    t.dedup_by(|a, b| a.n == b.n && a.t.g == b.t.g && a.t.x == b.t.x);
    let be = match k { 'b' => true, 'o' => r.chance(1, 2), _ => false };
    (be, t)
}
/// Clearing a HEIF image keeps orientation and resolution.
fn with_display(mut t: Vec<Located>, r: &mut Rng) -> Vec<Located> {
    if t.is_empty() { return t; }
    for x in [0x112, 0x11a, 0x11b, 0x128] {
        t.retain(|l| !(l.n == 0 && l.t.g == G::GENERIC && l.t.x == x));
        if r.chance(1, 2) { let f = row(G::GENERIC, x).unwrap().fmt; t.push(Located { n: 0, t: TagSpec { g: G::GENERIC, x, f, v: rand_val(f, 1, r) } }); }
    }
    if t.is_empty() { t.push(Located { n: 0, t: TagSpec { g: G::GENERIC, x: 0x112, f: F::INT16U, v: Val::V(vec![vec![vec![0, 1]]]) } }); }
    t.sort();
    t
}
fn edit_tag(i: usize) -> TagSpec { TagSpec { g: G::EXIF, x: 0xc9e0, f: F::INT16U, v: Val::V(vec![vec![vec![0, i as u8]]]) } }
const CAP: usize = 1 << 24;

struct Side { file: Option<String>, buf: Vec<u8> }
impl Side {
    fn bytes(&self) -> Vec<u8> { match &self.file { None => self.buf.clone(), Some(p) => std::fs::read(p).unwrap_or_default() } }
    fn read(&self, st: &mut Steps, fmt: &str) -> (String, Option<Metadata>) {
        match &self.file { None => st.res(|| Metadata::new_from_vec(&self.buf, ft(fmt))), Some(p) => st.res(|| Metadata::new_from_path(Path::new(p))) }
    }
    fn write(&mut self, st: &mut Steps, fmt: &str, m: &Metadata) -> String {
        match &self.file { None => { let b = &mut self.buf; st.res(|| m.write_to_vec(b, ft(fmt))).0 } Some(p) => st.res(|| m.write_to_file(Path::new(p))).0 }
    }
    fn clear(&mut self, st: &mut Steps, fmt: &str, op: &str) -> String {
        match &self.file {
            None => { let b = &mut self.buf; st.res(|| match op { "clear" => Metadata::clear_metadata(b, ft(fmt)), "clear12" => Metadata::clear_app12_segment(b, ft(fmt)), _ => Metadata::clear_app13_segment(b, ft(fmt)) }).0 }
            Some(p) => st.res(|| { let p = Path::new(p); match op { "clear" => Metadata::file_clear_metadata(p), "clear12" => Metadata::file_clear_app12_segment(p), _ => Metadata::file_clear_app13_segment(p) } }).0,
        }
    }
}
fn is_crash(r: &str) -> bool { r == "hang" || r == "abort" }
/// projection of one image state
fn observe(res: &str, s: &Side, st: &mut Steps, fmt: &str, d: &Dict) -> Value {
    let b = s.bytes();
    let l = if b.len() > CAP { Lex { p: vec!["lex:too long".into()], ..Default::default() } } else { lex(fmt, &b, d) };
    let read = if is_crash(res) { "none".to_string() } else {
        let (r, m) = s.read(st, fmt);
        match m { Some(m) => mdict_id(d, &m), None => if r.starts_with("err") { "err".into() } else { r } }
    };
    let (u, p) = l.json();
    let (r, msg) = res.split_once(':').unwrap_or((res, ""));
    json!({"res": r, "msg": msg, "u": u, "p": p, "read": read, "h": dig(&b)})
}
pub fn run(case: &Value, st: &mut Steps, scratch: &str) -> Value {
    let fmt = case["fmt"].as_str().unwrap();
    let seed = case["seed"].as_u64().unwrap();
    let shape: Vec<String> = case["shape"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let ops: Vec<String> = case["ops"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let mut d = Dict::default();
    let mut names: Vec<String> = shape.iter().filter_map(|s| s.split_once(':').map(|x| x.1.to_string())).chain(ops.iter().filter_map(|s| s.strip_prefix("W:").map(|x| x.to_string()))).collect();
    names.sort();
    names.dedup();
    for n in &names {
        let mut r = Rng::new(seed_of(n, seed));
        let (be, tags) = if fmt == "TIFF" { tiffile::payload(n, &mut r) } else { payload(n, &mut r) };
        let tags = if fmt == "HEIF" { with_display(tags, &mut r) } else { tags };
        d.add(n, be, tags, &mut r);
        if fmt == "HEIF" || fmt == "TIFF" { d.reduce(fmt, n); }
    }
    let img = build_image(fmt, &shape, &mut d, &mut Rng::new(seed_of("image", seed)));
    if let Ok(p) = std::env::var("LEXH_DUMP") { std::fs::write(p, &img).unwrap(); }
    let mut sides = vec![Side { file: None, buf: img.clone() }];
    let path = format!("{scratch}/img.{}", ext(fmt));
    if case.get("nofile").is_none() {
        std::fs::write(&path, &img).unwrap();
        sides.push(Side { file: Some(path.clone()), buf: vec![] });
    }
    let join = |v: Vec<Value>| -> (Value, Value) {
        let mut it = v.into_iter();
        let a = it.next().unwrap();
        let f: Vec<Value> = it.filter(|b| *b != a).collect();
        (a, json!(f))
    };
    let mut dead = false;
    let mut obs = vec![];
    for s in &sides { obs.push(observe("ok", s, st, fmt, &d)); }
    if obs.iter().any(|o| is_crash(o["read"].as_str().unwrap())) { dead = true; }
    let (vec, file) = join(obs);
    let init = json!({"vec": vec, "file": file});
    let mut cur = init["vec"]["read"].as_str().unwrap().to_string();
    let mut ev = vec![];
    for (i, op) in ops.iter().enumerate() {
        if dead { break; }
        let (mut kind, mut m, mut base) = ("", String::new(), String::new());
        let mut size = 0;   // of the block to be stored
        let mut obs = vec![];
        for s in sides.iter_mut() {
            let res = if let Some(n) = op.strip_prefix("W:") {
                kind = "write"; m = n.to_string();
                let md = lib_metadata(d.be[n], &d.tags[n]);
                size = md.encode().map_or(0, |b| b.len());
                s.write(st, fmt, &md)
            } else if op == "E" {
                kind = "edit";
                base = cur.clone();
                let known = d.tags.contains_key(&cur);
                if !known && cur != "err" && cur != "empty" { m = "other".into(); } else {
                    m = format!("{}~{i}", if known { &cur } else { "" });
                    let mut t: Vec<Located> = if known { d.tags[&cur].iter().filter(|t| !(t.t.g == G::EXIF && t.t.x == 0xc9e0)).cloned().collect() } else { vec![] };
                    t.push(Located { n: 0, t: edit_tag(i) });
                    t.sort();
                    let be = known && d.be[&cur];
                    if !d.tags.contains_key(&m) { d.add(&m.clone(), be, t, &mut Rng::new(seed)); }
                    if fmt == "HEIF" || fmt == "TIFF" { d.reduce(fmt, &m.clone()); }
                }
                let (r, md) = s.read(st, fmt);
                if is_crash(&r) { r } else {
                    let mut md = md.unwrap_or_default();
                    md.set_tag(build(&edit_tag(i)));
                    size = md.encode().map_or(0, |b| b.len());
                    s.write(st, fmt, &md)
                }
            } else {
                kind = match op.as_str() { "C" => "clear", "C12" => "clear12", "C13" => "clear13", _ => panic!("op {op}") };
                s.clear(st, fmt, kind)
            };
            if is_crash(&res) { dead = true; }
            let o = observe(&res, s, st, fmt, &d);
            if is_crash(o["read"].as_str().unwrap()) { dead = true; }
            obs.push(o);
        }
        let (vec, file) = join(obs);
        cur = vec["read"].as_str().unwrap().to_string();
        ev.push(json!({"op": kind, "m": m, "b": base, "n": size, "vec": vec, "file": file}));
    }
    let _ = std::fs::remove_file(&path);
    json!({"id": case["id"], "fmt": fmt, "seed": seed, "shape": shape, "ops": ops, "init": init, "ev": ev, "red": d.red, "sets": d.sets()})
}
