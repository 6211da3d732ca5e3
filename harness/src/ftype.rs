//! File type suite: files of all names and contents, every call that has to
//! choose a format.
use crate::cont::*;
use crate::container::*;
use crate::runner::*;
use crate::tiffile;
use crate::util::*;
use little_exif::filetype::{get_file_type, FileExtension};
use little_exif::metadata::Metadata;
use serde_json::{json, Value};
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::str::FromStr;

fn decl(t: &str) -> FileExtension { match t { "NJXL" => FileExtension::NAKED_JXL, "PNG0" => FileExtension::PNG { as_zTXt_chunk: false }, t => ft(t) } }
fn fname(t: FileExtension) -> &'static str {
    match t { FileExtension::PNG { .. } => "PNG", FileExtension::JPEG => "JPEG", FileExtension::JXL => "JXL", FileExtension::NAKED_JXL => "NJXL", FileExtension::TIFF => "TIFF", FileExtension::WEBP => "WEBP", FileExtension::HEIF => "HEIF" }
}
fn bytes_of(v: &Value) -> Vec<u8> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default() }
pub fn shape_of(k: &str, r: &mut Rng) -> Vec<String> {
    let e = "EXIF:p1".to_string();
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| if *x == "E" { e.clone() } else { x.to_string() }).collect() };
    match k {
        "JPEG" => s(r.pick(&[&["E"] as &[&str], &["APP0", "E", "APP13"], &["E", "APP12", "COM"]])),
        "PNG" => vec![format!("{}:p1", r.pick(&["eXIf", "zEXIF", "tEXIF"])), "IDAT".into()],
        "WEBP" => s(r.pick(&[&["X", "VP8", "E"] as &[&str], &["X", "VP8L", "E", "UNK"]])),
        "JXL" => s(r.pick(&[&["E", "jxlc"] as &[&str], &["jxlc", "E"]])),
        "NJXL" => s(&["NAKED"]),
        "HEIF" => s(r.pick(&[&["IMG", "E"] as &[&str], &["E", "IMG", "AVIF"]])),
        "TIFF" => s(r.pick(&[&["E"] as &[&str], &["E", "GAPS"]])),
        _ => panic!("content {k}"),
    }
}
struct Dirs { dir: PathBuf, name: Vec<u8> }
impl Dirs { fn path(&self) -> PathBuf { self.dir.join(std::ffi::OsString::from_vec(self.name.clone())) } }

pub fn run(case: &Value, st: &mut Steps, scratch: &str) -> Value {
    let seed = case["seed"].as_u64().unwrap();
    let mut r = Rng::new(seed);
    let mut d = Dict::default();
    for n in ["p1", "p2", "p3", "p4"] {
        let (be, tags) = tiffile::payload(&format!("m{n}"), &mut Rng::new(seed_of(n, seed)));
        d.add(n, be, tags, &mut r);
        d.reduce("TIFF", n);
    }
    let content = case["content"].as_str().unwrap();
    let kind = if content == "HEIF?" { "HEIF" } else { content };
    let mut img = match kind {
        "raw" => bytes_of(&case["head"]),
        "junk" => { let n = r.range(4, 90); let mut b = r.bytes(n); b[0] = 7; b[4.min(n - 1)] = 7; b }
        "short" => vec![0x89, 0x50, 0x4e][..r.range(1, 3)].to_vec(),
        "empty" | "none" | "dir" => vec![],
        "NJXL" => build_image("JXL", &shape_of(kind, &mut r), &mut d, &mut r),
        k => build_image(k, &shape_of(k, &mut r), &mut d, &mut r),
    };
    if kind == "HEIF" { img[8..12].copy_from_slice(if content == "HEIF?" { b"zzzz" } else { *r.pick(&[b"heic", b"heix", b"heim", b"heis", b"hevc", b"hevx", b"mif1", b"msf1", b"avif", b"avis"]) }); }
    let dir = PathBuf::from(format!("{scratch}/ft"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut at = Dirs { dir: dir.clone(), name: bytes_of(&case["name"]) };
    match kind { "none" => {} "dir" => std::fs::create_dir(at.path()).unwrap(), _ => std::fs::write(at.path(), &img).unwrap() }
    let mut fmt = match kind { "raw" => "raw", "junk" | "short" | "empty" | "none" | "dir" => "junk", k => k }.to_string();
    let look = |at: &Dirs, fmt: &str, d: &Dict| -> (Value, Vec<u8>) {
        let p = at.path();
        let there = if p.is_dir() { "dir" } else if p.exists() { "file" } else { "none" };
        let extra = std::fs::read_dir(&at.dir).unwrap().count() > (there != "none") as usize;
        let b = if there == "file" { std::fs::read(&p).unwrap() } else { vec![] };
        let now = if fmt == "raw" || fmt == "junk" || fmt == "NJXL" { "none".to_string() } else { lex(fmt, &b, d).units.iter().find(|u| u.k.to_uppercase().ends_with("EXIF")).map_or("none".into(), |u| u.c.clone()) };
        (json!({"there": if extra { "more" } else { there }, "fmt": fmt, "head": b[..b.len().min(16)].to_vec(), "now": now}), b)
    };
    let (init, mut before) = look(&at, &fmt, &d);
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let s = |k: &str| op[k].as_str().unwrap();
        let (o, t, a) = (s("o"), s("t"), s("a"));
        let path = at.path();
        let md = |n: &str| lib_metadata(d.be[n], &d.tags[n]);
        let mut buf = before.clone();
        let mut got = String::new();
        let mut ek = String::new();
        let vecop = matches!(o, "X" | "Y" | "Z");
        let mut run = |f: &mut dyn FnMut(&mut String) -> Result<(), std::io::Error>| -> String {
            let mut g = String::new();
            let mut k = String::new();
            let r = st.res(|| f(&mut g).map_err(|e| { k = format!("{:?}", e.kind()); e })).0;
            got = g;
            ek = k;
            r
        };
        let res = match o {
            "R" => run(&mut |g| Metadata::new_from_path(&path).map(|m| *g = mdict_id(&d, &m))),
            "W" => run(&mut |_| md(a).write_to_file(&path)),
            "C" => run(&mut |_| Metadata::file_clear_metadata(&path)),
            "C12" => run(&mut |_| Metadata::file_clear_app12_segment(&path)),
            "C13" => run(&mut |_| Metadata::file_clear_app13_segment(&path)),
            "G" => run(&mut |g| get_file_type(&path).map(|t| *g = fname(t).into())),
            "D" => run(&mut |g| { *g = FileExtension::auto_detect(&mut std::io::Cursor::new(&buf)).map_or("none".into(), |t| fname(t).into()); Ok(()) }),
            "S" => { let n = bytes_of(&op["n"]); run(&mut |g| FileExtension::from_str(&String::from_utf8_lossy(&n)).map(|t| *g = fname(t).into())) }
            "V" => run(&mut |g| Metadata::new_from_vec(&buf, decl(t)).map(|m| *g = mdict_id(&d, &m))),
            "X" => run(&mut |_| md(a).write_to_vec(&mut buf, decl(t))),
            "Y" => run(&mut |_| Metadata::clear_metadata(&mut buf, decl(t))),
            "Z" => run(&mut |_| { Metadata::clear_app12_segment(&mut buf, decl(t))?; Metadata::clear_app13_segment(&mut buf, decl(t)) }),
            "N" => { let n = bytes_of(&op["n"]); run(&mut |_| { at.name = n.clone(); std::fs::rename(&path, at.path()) }) }
            x => panic!("op {x}"),
        };
        if vecop && at.path().is_file() && buf != before { std::fs::write(at.path(), &buf).unwrap(); }
        let r0 = res.split(':').next().unwrap().to_string();
        // the file now is what the declared type or its name says it is
        if r0 == "ok" && (o == "W" || o == "X") {
            let f = if o == "X" { fname(decl(t)).to_string() } else { get_file_type(&at.path()).map_or(fmt.clone(), |t| fname(t).into()) };
            fmt = f;
        }
        let (mut v, b) = look(&at, &fmt, &d);
        v["same"] = json!(if vecop { buf == before } else { b == before } );
        for (k, x) in [("o", json!(o)), ("t", json!(t)), ("a", json!(a)), ("n", op["n"].clone()), ("res", json!(r0)), ("msg", json!(res)), ("kind", json!(ek)), ("got", json!(got))] { v[k] = x; }
        ev.push(v);
        before = b;
        if r0 != "ok" && r0 != "err" { break; }
    }
    let _ = std::fs::remove_dir_all(&dir);
    json!({"id": case["id"], "name": case["name"], "content": content, "init": init, "ev": ev})
}
pub fn rand_case(r: &mut Rng) -> Value {
    let exts = ["heif", "hif", "heic", "avif", "jpeg", "jpg", "jxl", "png", "tiff", "tif", "webp"];
    let name = |r: &mut Rng| -> Vec<u8> {
        let mut e: Vec<u8> = r.pick(&exts).bytes().map(|b| if r.0 % 3 == 0 { b } else { b.to_ascii_uppercase() }).collect();
        for b in e.iter_mut() { if r.chance(1, 3) { *b ^= 0x20; } }
        if r.chance(1, 4) { match r.below(4) { 0 => { let i = r.below(e.len()); e.remove(i); } 1 => { let i = r.below(e.len() + 1); e.insert(i, r.range(33, 126) as u8); } 2 => { let i = r.below(e.len()); e[i] = r.range(33, 126) as u8; } _ => e.push(255) } }
        let mut v: Vec<u8> = match r.below(8) { 0 => vec![], 1 => b"a.jpg.".to_vec(), 2 => b"png".to_vec(), 3 => b"x y.".to_vec(), _ => b"p.".to_vec() };
        v.extend(e);
        v.retain(|b| *b != b'/');
        if v.is_empty() || v == b"." || v == b".." { v = b"q".to_vec(); }
        v
    };
    let fmts = ["JPEG", "PNG", "PNG0", "WEBP", "JXL", "HEIF", "TIFF", "NJXL"];
    let content = *r.pick(&["JPEG", "PNG", "WEBP", "JXL", "HEIF", "HEIF?", "TIFF", "NJXL", "junk", "short", "empty", "none", "dir"]);
    let n = r.range(1, 7);
    let there = content != "none" && content != "dir";
    let ops: Vec<Value> = (0..n).map(|_| {
        let (mut o, mut t, mut a, mut x) = (*r.pick(&["R", "R", "R", "W", "W", "C", "C12", "C13", "G", "D", "S", "V", "X", "Y", "Z", "N", "N"]), "", String::new(), vec![]);
        if !there && matches!(o, "V" | "X" | "Y" | "Z" | "D" | "N") { o = "R"; }
        if matches!(o, "V" | "X" | "Y" | "Z") { t = *r.pick(&fmts); }
        if matches!(o, "W" | "X") { a = format!("p{}", r.range(2, 4)); }
        if o == "N" { x = name(r); }
        if o == "S" { let mut e = name(r); e.retain(|b| *b < 127); x = if let Some(p) = e.iter().rposition(|b| *b == b'.') { e[p + 1..].to_vec() } else { e }; }
        json!({"o": o, "t": t, "a": a, "n": x})
    }).collect();
    json!({"seed": r.below(1 << 30), "name": name(r), "content": content, "head": [], "ops": ops})
}
