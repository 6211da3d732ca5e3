//! Fault suite: operations on files while a file system call fails, does less
//! than it was asked for, or the file must not grow.
use crate::cont::*;
use crate::container::*;
use crate::runner::*;
use crate::sysfault::*;
use crate::util::*;
use little_exif::metadata::Metadata;
use serde_json::{json, Value};
use std::path::Path;

/// failures: 0 a partial call, otherwise the error
pub fn how(h: &str) -> i64 { match h { "part" => 0, "one" => -1, "intr" => 4, "io" => 5, "acc" => 13, "full" => 28, _ => panic!("how {h}") } }
/// images of the robustness suite and some with large parts, which are read
/// and written in many calls
pub fn shapes(fmt: &str) -> Vec<Vec<&'static str>> {
    let mut v = match fmt {
        "JPEG" => vec![vec!["APP0", "HUGE", "EXIF:o1", "LONG"]],
        "PNG" => vec![vec!["gAMA", "zEXIF:o1", "LONG"], vec!["HUGE", "XMPI", "eXIf:o1"]],
        "WEBP" => vec![vec!["LOSSY", "LONG"], vec!["X", "VP8", "LONG", "EXIF:o1"]],
        "JXL" => vec![vec!["huge", "BEXIF:o1", "jxlc", "EXIF:o1"]],
        "HEIF" => vec![vec!["IMG", "HUGE", "EXIF:o1"]],
        _ => vec![vec!["h1"]],
    };
    v.extend(crate::robust::shapes(fmt));
    v
}
pub fn run(case: &Value, st: &mut Steps, scratch: &str) -> Value {
    let fmt = case["fmt"].as_str().unwrap();
    let seed = case["seed"].as_u64().unwrap();
    let op = case["op"].as_str().unwrap();
    let mut d = Dict::default();
    let mut names = vec!["o1", "o2", "m1"];
    if fmt == "TIFF" { names.push("h1"); }
    if let Some(n) = op.strip_prefix("W:") { if !names.contains(&n) { names.push(n); } }
    for n in names { let (be, tags) = if fmt == "TIFF" { crate::tiffile::payload(n, &mut Rng::new(seed_of(n, seed))) } else { payload(n, &mut Rng::new(seed_of(n, seed))) }; d.add(n, be, tags, &mut Rng::new(seed)); }
    let shape: Vec<String> = match case["shape"].as_u64() {
        Some(i) => { let v = shapes(fmt); v[i as usize % v.len()].iter().map(|s| s.to_string()).collect() }
        None => case["shape"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
    };
    let img = build_image(fmt, &shape, &mut d, &mut Rng::new(seed_of("image", seed)));
    let path = format!("{scratch}/f.{}", ext(fmt));
    let p = Path::new(&path);
    let m = op.strip_prefix("W:").unwrap_or("m1");
    let md = lib_metadata(d.be[m], &d.tags[m]);
    let mut go = |st: &mut Steps, call: usize, k: i64, how: i64, quota: i64| {
        std::fs::write(p, &img).unwrap();
        let (mut fired, mut n, mut rd) = (false, [0; 5], String::new());
        let (res, m) = st.res(|| {
            let (r, f, c) = under(call, k, how, quota, || match op {
                "R" => Metadata::new_from_path(p),
                "C" => Metadata::file_clear_metadata(p).map(|_| Metadata::new()),
                "C12" => Metadata::file_clear_app12_segment(p).map(|_| Metadata::new()),
                "C13" => Metadata::file_clear_app13_segment(p).map(|_| Metadata::new()),
                _ => md.write_to_file(p).map(|_| Metadata::new()),
            });
            fired = f;
            n = c;
            r
        });
        if let (Some(m), "R") = (m, op) { rd = mdict_id(&d, &m); }
        (res, fired, n, rd, std::fs::read(p).unwrap_or_default())
    };
    let (res0, _, n0, rd0, after) = go(st, 9, -1, 0, -1);
    let mut ev = vec![];
    if res0 == "ok" {
        let what = case["call"].as_str().unwrap();
        let mut put = |k: i64, h: &str, o: (String, bool, [usize; 5], String, Vec<u8>)| {
            let (r, msg) = o.0.split_once(':').unwrap_or((&o.0, ""));
            ev.push(json!({"k": k, "how": h, "fired": o.1, "res": r, "msg": msg, "same": o.4 == img, "done": o.4 == after, "rd": o.3 == rd0, "got": o.3, "len": o.4.len()}));
        };
        if what == "grow" {
            // the file may not grow by more than k bytes
            let room = after.len().saturating_sub(img.len());
            for k in [0, 1, 7, room / 2, room.saturating_sub(1), room, room + 64] { put(k as i64, "full", go(st, 9, -1, 0, (img.len() + k) as i64)); }
        } else {
            let c = CALLS.iter().position(|c| *c == what).unwrap();
            let h = case["how"].as_str().unwrap();
            let step = case["step"].as_u64().unwrap_or(1).max(n0[c] as u64 / 400 + 1) as usize;
            for k in (0..n0[c]).step_by(step) { put(k as i64, h, go(st, c, k as i64, how(h), -1)); }
        }
    }
    let _ = std::fs::remove_file(&path);
    json!({"id": case["id"], "fmt": fmt, "seed": seed, "shape": shape, "op": op, "call": case["call"], "changes": after != img, "res0": res0, "old": img.len(), "new": after.len(), "ev": ev})
}
pub fn rand_case(r: &mut Rng) -> Value {
    let fmt = *r.pick(&crate::robust::FMTS);
    let sh = shapes(fmt);
    let shape = r.pick(&sh).clone();
    let (call, how) = *r.pick(&[("read", "io"), ("read", "part"), ("read", "one"), ("write", "one"), ("read", "intr"), ("write", "io"), ("write", "full"), ("write", "part"), ("write", "intr"), ("seek", "io"), ("size", "io"), ("open", "acc"), ("grow", "full")]);
    let op = if fmt == "JPEG" { *r.pick(&["R", "W:m1", "W:L1", "C", "C12", "C13"]) } else if fmt == "TIFF" { *r.pick(&["R", "W:q1", "C"]) } else { *r.pick(&["R", "W:m1", "W:L1", "C"]) };
    json!({"fmt": fmt, "seed": r.below(1 << 30), "shape": shape, "op": op, "call": call, "how": how})
}
