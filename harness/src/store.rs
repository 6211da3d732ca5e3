//! Store suite: histories of calls on one metadata object.
use crate::cont::*;
use crate::runner::*;
use crate::tagtab::*;
use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;
use serde_json::{json, Value};

pub fn gi(g: G) -> u8 { g as u8 + 1 }
pub fn gof(i: u8) -> G { G::ALL[i as usize - 1] }
/// First of the numbers a "fill" sets: no table knows them.
const FILL: u16 = 0x5800;
fn ident(t: &TagSpec) -> String { format!("{}.{}", t.f.code(), dig(format!("{:?}", t.v).as_bytes())) }

/// Tag with a short name: fixed ones used by the model, "t<k>" from the seed.
fn tag(name: &str, val: u64, seed: u64) -> TagSpec {
    let one = |g, x, f, c| TagSpec { g, x, f, v: rand_val_nonan(f, c, &mut Rng::new(seed_of(name, seed * 31 + val))) };
    match name {
        "A" => one(G::GENERIC, 0x10f, F::STRING, 6), "B" => one(G::GENERIC, 0x112, F::INT16U, 1), "W" => one(G::GENERIC, 0x100, F::INT32U, 1),
        "E" => one(G::EXIF, 0x829a, F::RATIONAL64U, 1), "I" => one(G::INTEROP, 0x1, F::STRING, 3), "P" => one(G::GPS, 0x1, F::STRING, 1),
        // the same number as a tag of another group
        "Q" => one(G::GPS, 0x2, F::RATIONAL64U, 3), "J" => one(G::INTEROP, 0x2, F::UNDEF, 4),
        "S" => TagSpec { g: G::GENERIC, x: 0x111, f: F::INT32U, v: Val::D(vec![vec![1, 2, 3], vec![4; 6]]) },
        "C" => TagSpec { g: G::GENERIC, x: 0x117, f: F::INT32U, v: Val::V(vec![vec![vec![0, 0, 0, 3]], vec![vec![0, 0, 0, 6]]]) },
        "T" => TagSpec { g: G::GENERIC, x: 0x201, f: F::INT32U, v: Val::D(vec![vec![7; 11]]) },
        "L" => TagSpec { g: G::GENERIC, x: 0x202, f: F::INT32U, v: Val::V(vec![vec![vec![0, 0, 0, 11]]]) },
        _ => {
            let mut r = Rng::new(seed_of(name, seed));
            let t = rand_tags(0, 1, &G::ALL, false, &mut r).remove(0).t;
            let c = if row(t.g, t.x).is_some_and(|x| x.fmt == t.f) || row(t.g, t.x).is_none() { r.range(1, 9) } else { 1 };
            TagSpec { v: rand_val_nonan(t.f, c, &mut Rng::new(seed_of(name, seed * 31 + val + 1))), ..t }
        }
    }
}
fn observe(m: &Metadata, probes: &[(u8, u16)]) -> Value {
    let dirs: Vec<Value> = m.get_ifds().iter().map(|i| {
        let g = G::of(i.get_ifd_type());
        json!([i.get_generic_ifd_nr(), gi(g), i.get_tags().iter().map(|t| { let s = spec_of(t, g); json!([s.x, ident(&s)]) }).collect::<Vec<_>>()])
    }).collect();
    let iter: Vec<Value> = m.into_iter().map(|t| { let s = spec_of(t, G::GENERIC); json!([s.x, ident(&s)]) }).collect();
    let q: Vec<Value> = probes.iter().map(|(g, x)| {
        let grp = if *g == 0 { None } else { Some(gof(*g).lib()) };
        json!([g, x, m.get_tag_by_hex(*x, grp).map(|t| ident(&spec_of(t, G::GENERIC))).collect::<Vec<_>>()])
    }).collect();
    // the same questions asked with a tag; single directories asked for by group and number
    let gt: Vec<Value> = probes.iter().filter(|p| p.0 != 0).map(|(g, x)| json!([g, x, m.get_tag(&ExifTag::UnknownUNDEF(vec![], *x, gof(*g).lib())).map(|t| ident(&spec_of(t, G::GENERIC))).collect::<Vec<_>>()])).collect();
    let top = m.get_ifds().iter().map(|i| i.get_generic_ifd_nr()).max().unwrap_or(0) + 1;
    let mut one = vec![];
    for n in 0..=top { for g in G::ALL { if let Some(i) = m.get_ifd(g.lib(), n) { assert!(i.get_generic_ifd_nr() == n && G::of(i.get_ifd_type()) == g); one.push(json!([n, gi(g), i.get_tags().len()])) } } }
    json!({"dirs": dirs, "iter": iter, "q": q, "gt": gt, "one": one, "max": m.get_max_generic_ifd_number()})
}
pub fn run(case: &Value, st: &mut Steps) -> Value {
    let seed = case["seed"].as_u64().unwrap();
    let be = case["be"].as_bool().unwrap_or(false);
    let mut m = lib_metadata(be, &[]);
    if case["be"].is_boolean() && !be { m = Metadata::new(); }
    let ops: Vec<Vec<String>> = case["ops"].as_array().unwrap().iter().map(|o| o.as_str().unwrap().split(':').map(|s| s.to_string()).collect()).collect();
    // everything the history talks about, plus the same numbers in no particular group
    let mut probes: Vec<(u8, u16)> = vec![(0, 0x4242), (2, 0x10f)];
    for o in &ops { for w in o.iter().skip(1) { if w.starts_with(|c: char| c.is_ascii_alphabetic()) { let t = tag(w.split('.').next().unwrap(), 1, seed); probes.push((gi(t.g), t.x)); probes.push((0, t.x)); } } }
    for o in ops.iter().filter(|o| o[0] == "fill") { let (g, k): (u8, u16) = (o[2].parse().unwrap(), o[3].parse().unwrap()); for j in [0, k / 2, k - 1] { probes.push((g, FILL + j)); probes.push((0, FILL + j)); } }
    probes.sort();
    probes.dedup();
    let mut ev = vec![];
    let init = observe(&m, &probes);
    for o in &ops {
        let nm = |i: usize| -> TagSpec { let (a, b) = o[i].split_once('.').unwrap_or((&o[i], "1")); tag(a, b.parse().unwrap(), seed) };
        let num = |i: usize| -> u32 { o[i].parse().unwrap() };
        let (mut n, mut g, mut x, mut id, mut ret) = (0u32, 1u8, 0u16, String::new(), 0usize);
        let mut many: Vec<(u16, String)> = vec![];
        let res = match o[0].as_str() {
            "set" => { let t = nm(1); g = gi(t.g); x = t.x; id = ident(&t); let l = build(&t); st.call(|| m.set_tag(l)) }
            "iset" => { n = num(1); let t = nm(3); g = num(2) as u8; x = t.x; id = ident(&t); let l = build(&t); st.call(|| m.get_ifd_mut(gof(g).lib(), n).set_tag(l)) }
            "rem" => { let t = nm(1); g = gi(t.g); x = t.x; let l = build(&t); st.call(|| ret = m.remove_tag(l)) }
            "hrem" => { let t = nm(2); g = num(1) as u8; x = t.x; st.call(|| ret = m.remove_tag_by_hex_group(x, gof(g).lib())) }
            "irem" => { n = num(1); g = num(2) as u8; x = nm(3).x; st.call(|| m.get_ifd_mut(gof(g).lib(), n).remove_tag(x)) }
            "mk" => { n = num(1); g = num(2) as u8; st.call(|| m.create_ifd(gof(g).lib(), n)) }
            "gm" => { n = num(1); g = num(2) as u8; st.call(|| { let i = m.get_ifd_mut(gof(g).lib(), n); assert!(i.get_generic_ifd_nr() == n && G::of(i.get_ifd_type()) == gof(g)); }) }
            // a whole row of private numbers into one directory
            "fill" => {
                n = num(1); g = num(2) as u8;
                let row: Vec<TagSpec> = (0..num(3) as u16).map(|j| TagSpec { g: gof(g), x: FILL + j, f: F::INT16U, v: Val::V(vec![vec![vec![(j >> 8) as u8, j as u8]]]) }).collect();
                many = row.iter().map(|t| (t.x, ident(t))).collect();
                let l: Vec<ExifTag> = row.iter().map(build).collect();
                st.call(|| for t in l { m.get_ifd_mut(gof(g).lib(), n).set_tag(t) })
            }
            "red" => st.call(|| m.reduce_to_a_minimum()),
            // to the encoded form and back
            "rt" => st.call(|| { let b = m.encode().expect("encode"); m = Metadata::new_from_vec(&b, FileExtension::TIFF).expect("decode"); }),
            x => panic!("op {x}"),
        };
        let r = match res { Out::Val(()) => "ok".to_string(), Out::Panic(l) => format!("panic:{l}"), Out::Crash(c) => c };
        let bad = r != "ok";
        ev.push(json!({"op": o[0], "n": n, "g": g, "x": x, "id": id, "many": many, "ret": ret, "res": r.split(':').next().unwrap(), "msg": r, "be": m.get_endian() == little_exif::endian::Endian::Big, "o": if bad { init.clone() } else { observe(&m, &probes) }}));
        if bad { break; }
    }
    json!({"id": case["id"], "be": be, "ops": case["ops"], "init": init, "ev": ev})
}
pub fn rand_case(r: &mut Rng) -> Value {
    let names: Vec<String> = (0..r.range(2, 7)).map(|i| if r.chance(2, 5) { r.pick(&["A", "B", "W", "E", "I", "P", "Q", "J", "S", "C", "T", "L"]).to_string() } else { format!("t{i}") }).collect();
    let seed = r.below(1 << 30) as u64;
    let maxn = r.range(0, 3);
    // directories far away, once in a while
    let far = if r.chance(1, 15) { Some(*r.pick(&[8usize, 9, 17, 40, 255, 256, 300])) } else { None };
    let big = r.chance(1, 50);
    let mut ops: Vec<String> = (0..if big { r.range(1, 5) } else { r.range(2, 14) }).map(|_| {
        let nm = r.pick(&names).clone();
        let t = tag(&nm, 1, seed);
        let n = match far { Some(f) if r.chance(1, 3) => f - r.below(2), _ => r.range(0, maxn) };
        let v = r.range(1, 3);
        let special = matches!(nm.as_str(), "S" | "C" | "T" | "L");
        // now and then in a directory of another group (only where the number is not known there)
        let g = if r.chance(1, 8) && !special { let k = *r.pick(&G::ALL); if row(k, t.x).is_none() { gi(k) } else { gi(t.g) } } else { gi(t.g) };
        match r.below(16) {
            0..=3 => format!("set:{nm}.{v}"),
            4..=7 => format!("iset:{n}:{g}:{nm}.{v}"),
            8 => format!("rem:{nm}"), 9 => format!("hrem:{g}:{nm}"), 10 => format!("irem:{n}:{g}:{nm}"),
            11 => format!("mk:{n}:{}", r.range(1, 4)), 12 => format!("gm:{n}:{}", r.range(1, 4)),
            13 => if r.chance(1, 3) { "red".into() } else { format!("set:{nm}.{v}") },
            _ => "rt".into(),
        }
    }).collect();
    if big { let k = *r.pick(&[254usize, 255, 256, 257, 300, 400]); let at = r.below(ops.len()); ops.insert(at, format!("fill:{}:{}:{k}", r.range(0, maxn), r.range(1, 4))); }
    json!({"seed": seed, "be": r.chance(1, 2), "ops": ops})
}
