//! Export suite: bytes exported for a format against the carrier that a write
//! of the same metadata embeds.
use crate::cont::*;
use crate::container::*;
use crate::runner::*;
use crate::tagtab::*;
use crate::util::*;
use little_exif::filetype::FileExtension;
use miniz_oxide::inflate::decompress_to_vec_zlib;
use serde_json::{json, Value};

const ALL: [&str; 8] = ["JPEG", "PNG1", "PNG0", "WEBP", "HEIF", "JXL", "TIFF", "NJXL"];
fn target(f: &str) -> FileExtension {
    match f { "PNG1" => FileExtension::PNG { as_zTXt_chunk: true }, "PNG0" => FileExtension::PNG { as_zTXt_chunk: false }, "NJXL" => FileExtension::NAKED_JXL, f => ft(f) }
}
/// An image of the format, with or without EXIF in it (a HEIF image without,
/// as an Exif item keeps the header in front of its EXIF block).
fn image(f: &str, d: &mut Dict, r: &mut Rng) -> Option<(String, Vec<u8>)> {
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let (fmt, shape) = match f {
        "JPEG" => ("JPEG", s(r.pick(&[&["APP0"] as &[&str], &["APP0", "EXIF:z", "COM"], &[], &["EXIF:z", "APP13", "EXIF:z"]]))),
        "PNG1" | "PNG0" => ("PNG", s(r.pick(&[&["IDAT"] as &[&str], &["eXIf:z", "IDAT"], &["TXT", "IDAT", "zEXIF:z"]]))),
        "WEBP" => ("WEBP", s(r.pick(&[&["LOSSY"] as &[&str], &["LOSSLESS"], &["X", "VP8", "EXIF:z"], &["X", "VP8L", "XMP"]]))),
        "HEIF" => ("HEIF", s(r.pick(&[&["IMG"] as &[&str], &["IMG", "THMB", "XMP"]]))),
        _ => return None,
    };
    let b = build_image(fmt, &shape, d, r);
    Some((fmt.to_string(), b))
}
fn tags_of(name: &str, seed: u64) -> (bool, Vec<Located>) {
    if let Some(n) = name.strip_prefix('s') {
        let n: usize = n.parse().unwrap();
        let s = TagSpec { g: G::GENERIC, x: 0x10e, f: F::STRING, v: Val::V((0..n).map(|i| vec![vec![b'a' + (i % 26) as u8]]).collect()) };
        return (false, vec![Located { n: 0, t: s }]);
    }
    payload(name, &mut Rng::new(seed_of(name, seed)))
}
/// Encoded length is n + 26 + 1 (terminator), padded or not: see the trace.
pub fn run(case: &Value, st: &mut Steps) -> Value {
    let seed = case["seed"].as_u64().unwrap();
    let mut r = Rng::new(seed);
    let mut d = Dict::default();
    let (zb, zt) = payload("o9", &mut Rng::new(seed_of("z", seed)));
    d.add("z", zb, zt, &mut r);
    let (be, mut tags) = tags_of(case["m"].as_str().unwrap(), seed);
    let mut md = lib_metadata(be, &tags);
    let mut ver = 0;
    let mut ev = vec![];
    for (i, o) in case["ops"].as_array().unwrap().iter().enumerate() {
        let f = o.as_str().unwrap();
        if f == "E" {
            let t = TagSpec { g: G::EXIF, x: 0xc9e0, f: F::INT16U, v: Val::V(vec![vec![vec![1, i as u8]]]) };
            md.set_tag(build(&t));
            tags.retain(|l| !(l.n == 0 && l.t.g == G::EXIF && l.t.x == 0xc9e0));
            tags.push(Located { n: 0, t });
            tags.sort();
            ver += 1;
            ev.push(json!({"f": "E", "res": "ok", "wres": "ok", "msg": ""}));
            continue;
        }
        // the block of an equal object that nobody exported anything from
        let fresh = lib_metadata(be, &tags);
        let tiff = match st.call(|| fresh.encode().unwrap_or_default()) { Out::Val(v) => v, _ => vec![] };
        let (before, eb) = (located(&md), md.get_endian());
        let (res, exp) = st.res(|| md.as_u8_vec(target(f)));
        let (_, exp2) = st.res(|| md.as_u8_vec(target(f)));
        let kept = located(&md) == before && md.get_endian() == eb;
        let again = exp == exp2;
        let exp = exp.unwrap_or_default();
        let (mut wres, mut carr, mut n) = ("err".to_string(), vec![], 0);
        if let Some((fmt, mut img)) = image(f, &mut d, &mut r) {
            let w = target(if f == "PNG0" { "PNG1" } else { f });
            wres = st.res(|| md.write_to_vec(&mut img, w)).0;
            let l = lex(&fmt, &img, &d);
            n = l.carr.len();
            carr = l.carr.into_iter().next().unwrap_or_default();
        }
        // the text form is what the chunk of the image holds inside
        let text = |b: &[u8]| -> Vec<u8> { b.get(27..).and_then(|z| decompress_to_vec_zlib(z).ok()).unwrap_or_default() };
        if f == "PNG0" && wres == "ok" { carr = text(&carr); }
        let inner = if f == "PNG1" { text(&exp) } else { vec![] };
        let small = tiff.len() <= 900;
        let show = |b: &[u8]| if small { b.to_vec() } else { vec![] };
        let word = |s: &str| s.split(':').next().unwrap().to_string();
        ev.push(json!({"f": f, "res": word(&res), "msg": format!("{res} / {wres}"), "wres": word(&wres), "tlen": tiff.len(), "small": small, "tiff": show(&tiff), "exp": show(&exp), "xd": dig(&exp),
            "text": show(&inner), "carr": if res == "ok" { show(&carr) } else { vec![] }, "cd": dig(&carr), "carriers": n, "kept": kept, "again": again, "ver": ver}));
        if !matches!(&word(&res)[..], "ok" | "err") || !matches!(&word(&wres)[..], "ok" | "err") { break; }
    }
    json!({"id": case["id"], "m": case["m"], "ops": case["ops"], "ev": ev})
}
pub fn rand_case(r: &mut Rng) -> Value {
    let m = match r.below(12) { 0 => format!("s{}", r.range(0, 400)), 1 => format!("s{}", r.range(65440, 65540)), 2 => "L1".into(), 3 => "B1".into(), 4 => "e".into(), _ => format!("{}{}", r.pick(&["o", "m", "n", "b"]), r.below(50)) };
    let ops: Vec<String> = (0..r.range(2, 7)).map(|_| if r.chance(1, 4) { "E".into() } else { r.pick(&ALL).to_string() }).collect();
    json!({"seed": r.below(1 << 30), "m": m, "ops": ops})
}
