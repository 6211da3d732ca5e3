//! File system suite: a small tree of files, links and directories, calls on
//! it by all kinds of paths, one after the other and in several threads.
use crate::cont::*;
use crate::container::*;
use crate::runner::*;
use crate::sysfault::*;
use crate::tiffile;
use crate::tagtab::Val;
use crate::util::*;
use little_exif::filetype::{get_file_type, FileExtension};
use little_exif::metadata::Metadata;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

struct World { root: PathBuf, name: BTreeMap<&'static str, String>, ino: HashMap<u64, usize>, file: [PathBuf; 5], fmt: Vec<&'static str>, old: SystemTime, digs: Vec<Vec<u8>> }
impl World {
    fn real(&self, n: &str) -> String { self.name.get(n).cloned().unwrap_or(n.to_string()) }
    fn walk(&self, dir: &Path, pre: &str, v: &mut Vec<Value>) {
        let mut l: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
        l.sort();
        for p in l {
            let n = format!("{pre}{}", p.file_name().unwrap().to_string_lossy());
            let m = std::fs::symlink_metadata(&p).unwrap();
            if m.is_symlink() { v.push(json!([n, "link", std::fs::read_link(&p).unwrap().to_string_lossy()])); }
            else if m.is_dir() { v.push(json!([n, "dir", ""])); self.walk(&p, &format!("{n}/"), v); }
            else { v.push(json!([n, "file", self.ino.get(&m.ino()).map_or("new".to_string(), |i| i.to_string())])); }
        }
    }
    fn look(&mut self, d: &Dict, cwd: &Path) -> Value {
        let fds = std::fs::read_dir("/proc/self/fd").unwrap().count();
        let (mut ents, mut files, mut holds, mut seen) = (vec![], vec![], vec![], vec![]);
        self.walk(&self.root, "", &mut ents);
        for (i, p) in self.file.clone().iter().enumerate() {
            let b = std::fs::read(p).unwrap_or_default();
            let at = self.digs.iter().position(|x| *x == b).unwrap_or_else(|| { self.digs.push(b.clone()); self.digs.len() - 1 });
            match std::fs::symlink_metadata(p) {
                Ok(m) => files.push(json!({"dig": at, "time": (m.modified().unwrap() != self.old) as i32, "attr": format!("{} {:o} {} {}", self.ino.get(&m.ino()).copied().unwrap_or(0), m.mode(), m.nlink(), m.uid())})),
                Err(_) => files.push(json!({"dig": -1, "time": 1, "attr": "gone"})),
            }
            holds.push(self.holds(d, i, &b));
        }
        for (i, n) in [(1, "h"), (1, "s"), (1, "t"), (1, "sub/u")] {
            let n = n.split('/').map(|c| self.real(c)).collect::<Vec<_>>().join("/");
            let b = std::fs::read(self.root.join(&n)).unwrap_or_default();
            seen.push(json!([i, self.holds(d, i - 1, &b)]));
        }
        let here = std::env::current_dir().map_or("gone".into(), |p| if p == cwd { "here".to_string() } else { p.to_string_lossy().to_string() });
        json!({"ents": ents, "files": files, "holds": holds, "seen": seen, "fds": fds, "cwd": here})
    }
    fn holds(&self, d: &Dict, i: usize, b: &[u8]) -> String {
        if b.starts_with(b"text") || b.is_empty() { return "junk".into(); }
        lex(self.fmt[i], b, d).units.iter().find(|u| u.k.to_uppercase().ends_with("EXIF")).map_or("none".into(), |u| u.c.clone())
    }
    /// forget when the files were changed
    fn calm(&self) { for p in &self.file { if let Ok(f) = std::fs::OpenOptions::new().write(true).open(p) { let _ = f.set_modified(self.old); } } }
}
pub fn run(case: &Value, st: &mut Steps, scratch: &str) -> Value {
    let seed = case["seed"].as_u64().unwrap_or_else(|| seed_of(&case.to_string(), 1) >> 34);
    let mut r = Rng::new(seed);
    let mut d = Dict::default();
    for n in ["p1", "p2", "p3", "p4"] {
        let (be, tags) = tiffile::payload(&format!("{}{n}", if seed_of(n, seed ^ 77) % 2 == 0 { "m" } else { "b" }), &mut Rng::new(seed_of(n, seed)));
        if n == "p1" {
            // p5 looks the same from outside
            let mut tags = tags.clone();
            if let Some(Val::V(v)) = tags.iter_mut().find(|t| t.t.x == 0x100).map(|t| &mut t.t.v) { if let Some(b) = v[0][0].last_mut() { *b ^= 1; } }
            d.add("p5", be, tags, &mut Rng(r.0));
            d.reduce("TIFF", "p5");
        }
        d.add(n, be, tags, &mut r);
        d.reduce("TIFF", n);
    }
    let fmts = ["JPEG", "PNG", "WEBP", "JXL", "HEIF", "TIFF"];
    let mut fmt: Vec<&'static str> = vec![*r.pick(&fmts), *r.pick(&fmts), *r.pick(&fmts), "JPEG", ""];
    fmt[4] = fmt[0];
    if r.chance(1, 2) { fmt[1] = fmt[0]; }
    let root = PathBuf::from(scratch);
    std::fs::create_dir_all(&root).unwrap();
    let root = root.canonicalize().unwrap().join("fs");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(root.join("sub")).unwrap();
    let mut name = BTreeMap::new();
    for n in ["a", "h", "s", "t", "g", "o", "d", "n", "u", "gone", "e"] { name.insert(n, format!("{n}.{}", ext(fmt[0]))); }
    name.insert("b", format!("b b.x.{}", ext(fmt[1]).to_uppercase()));
    name.insert("j", format!("j.{}", ext(fmt[2])));
    name.insert("k", "k.jpg".to_string());
    name.insert("e", format!("a.{}", ext(fmt[0])));
    let at = |n: &str| root.join(&name[n]);
    let file = [at("a"), at("b"), at("j"), at("k"), root.join("sub").join(&name["e"])];
    let mut twin = vec![];
    for (i, p) in file.iter().enumerate() {
        let b = if i < 2 {
            let s = crate::ftype::shape_of(fmt[i], &mut r);
            if i == 0 {
                let s: Vec<String> = s.iter().map(|t| t.replace("p1", "p5")).collect();
                twin = build_image(fmt[4], &s, &mut d, &mut Rng(r.0));
            }
            // the other image holds something else, perhaps in the other byte order
            let s: Vec<String> = if i == 1 { s.iter().map(|t| t.replace("p1", "p3")).collect() } else { s };
            build_image(fmt[i], &s, &mut d, &mut r)
        } else if i == 4 { twin.clone() } else { format!("text {}", "x".repeat(r.below(60))).into_bytes() };
        std::fs::write(p, b).unwrap();
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(*r.pick(&[0o600, 0o644, 0o664, 0o640, 0o755]))).unwrap();
    }
    std::fs::hard_link(&file[0], at("h")).unwrap();
    for (l, t) in [("s", "a"), ("t", "s"), ("g", "gone"), ("o", "o")] { symlink(&name[t], at(l)).unwrap(); }
    symlink(format!("../{}", name["a"]), root.join("sub").join(&name["u"])).unwrap();
    symlink(".", root.join("here")).unwrap();
    std::fs::create_dir(at("d")).unwrap();
    let ino = file.iter().enumerate().map(|(i, p)| (std::fs::metadata(p).unwrap().ino(), i + 1)).collect();
    let mut w = World { root: root.clone(), name, ino, file, fmt, old: SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000), digs: vec![] };
    let back = std::env::current_dir().ok();
    std::env::set_current_dir(&root).unwrap();
    w.calm();
    let init = w.look(&d, &root);
    let sched: Vec<usize> = case["sched"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default();
    let mut ev = vec![];
    for step in case["steps"].as_array().unwrap() {
        let calls = step.as_array().unwrap();
        let paths: Vec<PathBuf> = calls.iter().map(|c| {
            let p = c["p"].as_array().unwrap().iter().map(|x| w.real(x.as_str().unwrap())).collect::<Vec<_>>().join("/");
            if r.chance(1, 3) { root.join(p) } else { PathBuf::from(p) }
        }).collect();
        let mds: Vec<Metadata> = calls.iter().map(|c| { let a = c["a"].as_str().unwrap(); if a.is_empty() { Metadata::new() } else { lib_metadata(d.be[a], &d.tags[a]) } }).collect();
        if calls[0]["o"] == "X" {
            // somebody else exchanges the content of two files
            let (a, e) = (std::fs::read(&w.file[0]).unwrap(), std::fs::read(&w.file[4]).unwrap());
            std::fs::write(&w.file[0], e).unwrap();
            std::fs::write(&w.file[4], a).unwrap();
            w.calm();
            ev.push(json!({"storm": 0, "calls": [{"o": "X", "p": [], "a": "", "res": "ok", "msg": "", "got": ""}], "wopen": [], "o": w.look(&d, &root)}));
            continue;
        }
        let rounds = case["storm"].as_u64().unwrap_or(0) as usize;
        w.calm();
        if rounds > 0 {
            let recs = storm(&w, &d, calls, &paths, &mds, rounds, st, &root);
            let bad = recs.iter().any(|c| c["res"] != "ok" && c["res"] != "err");
            ev.push(json!({"storm": rounds, "calls": recs, "wopen": [], "o": w.look(&d, &root)}));
            if bad { break; }
            continue;
        }
        schedule(sched.clone(), calls.len());
        type Answer = (String, Option<Metadata>);
        let one = |k: usize| -> Result<Option<Metadata>, std::io::Error> {
            let p = &paths[k];
            match calls[k]["o"].as_str().unwrap() {
                "R" => Metadata::new_from_path(p).map(Some),
                "G" => get_file_type(p).map(|_| None),
                "W" => mds[k].write_to_file(p).map(|_| None),
                "C" => Metadata::file_clear_metadata(p).map(|_| None),
                "C12" => Metadata::file_clear_app12_segment(p).map(|_| None),
                "C13" => Metadata::file_clear_app13_segment(p).map(|_| None),
                x => panic!("call {x}"),
            }
        };
        let judged = |r: std::thread::Result<Result<Option<Metadata>, std::io::Error>>| -> Answer { match r { Ok(Ok(m)) => ("ok".into(), m), Ok(Err(e)) => (format!("err:{e}"), None), Err(_) => ("panic".into(), None) } };
        let out = st.call(|| opened(|| -> Vec<Answer> {
            if calls.len() == 1 { return vec![judged(Ok(one(0)))]; }
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..calls.len()).map(|k| { let one = &one; s.spawn(move || as_thread(k + 1, || one(k))) }).collect();
                hs.into_iter().map(|h| judged(h.join())).collect()
            })
        }));
        let (ans, wopen) = match out {
            Out::Val(v) => v,
            Out::Panic(l) => (calls.iter().map(|_| (format!("panic:{l}"), None)).collect(), vec![]),
            Out::Crash(c) => (calls.iter().map(|_| (c.clone(), None)).collect(), vec![]),
        };
        let wopen: Vec<usize> = wopen.iter().map(|p| std::fs::metadata(Path::new(std::ffi::OsStr::from_bytes(p))).ok().and_then(|m| w.ino.get(&m.ino()).copied()).unwrap_or(0)).collect();
        let bad = ans.iter().any(|a| !a.0.starts_with("ok") && !a.0.starts_with("err"));
        let recs: Vec<Value> = calls.iter().zip(&ans).map(|(c, (r, m))| {
            let got = m.as_ref().map_or(String::new(), |m| mdict_id(&d, m));
            json!({"o": c["o"], "p": c["p"], "a": c["a"], "res": r.split(':').next().unwrap(), "msg": r.chars().take(90).collect::<String>(), "got": got})
        }).collect();
        ev.push(json!({"storm": 0, "calls": recs, "wopen": wopen, "o": w.look(&d, &root)}));
        if bad { break; }
    }
    if let Some(b) = back { let _ = std::env::set_current_dir(b); }
    let _ = std::fs::remove_dir_all(&root);
    json!({"id": case["id"], "fmt": w.fmt, "sched": sched, "seed": seed, "init": init, "ev": ev})
}
/// Every call again and again in a thread of its own, on a copy of its file
/// or on a byte vector, all at the same time.
fn storm(w: &World, d: &Dict, calls: &[Value], paths: &[PathBuf], mds: &[Metadata], rounds: usize, st: &mut Steps, root: &Path) -> Vec<Value> {
    type Seen = (String, String, Vec<u8>);
    let dir = root.parent().unwrap().join("storm");
    let _ = std::fs::remove_dir_all(&dir);
    let job: Vec<(usize, PathBuf, Vec<u8>, FileExtension)> = calls.iter().enumerate().map(|(k, _)| {
        let i = std::fs::metadata(&paths[k]).ok().and_then(|m| w.ino.get(&m.ino()).copied()).unwrap_or(1);
        let p = dir.join(k.to_string());
        std::fs::create_dir_all(&p).unwrap();
        (i, p.join(format!("a.{}", ext(w.fmt[i - 1]))), std::fs::read(&w.file[i - 1]).unwrap(), ft(w.fmt[i - 1]))
    }).collect();
    let once = |k: usize| -> (Seen, Option<Metadata>) {
        let (_, p, b, t) = &job[k];
        let (o, vec) = (calls[k]["o"].as_str().unwrap(), calls[k]["via"] == "vec");
        let mut v = b.clone();
        if !vec { std::fs::write(p, b).unwrap(); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (o, vec) {
            ("R", false) => Metadata::new_from_path(p).map(Some),
            ("R", true) => Metadata::new_from_vec(&v, *t).map(Some),
            ("G", _) => get_file_type(p).map(|_| None),
            ("W", false) => mds[k].write_to_file(p).map(|_| None),
            ("W", true) => mds[k].write_to_vec(&mut v, *t).map(|_| None),
            ("C", false) => Metadata::file_clear_metadata(p).map(|_| None),
            ("C", true) => Metadata::clear_metadata(&mut v, *t).map(|_| None),
            ("C12", false) => Metadata::file_clear_app12_segment(p).map(|_| None),
            ("C12", true) => Metadata::clear_app12_segment(&mut v, *t).map(|_| None),
            ("C13", false) => Metadata::file_clear_app13_segment(p).map(|_| None),
            ("C13", true) => Metadata::clear_app13_segment(&mut v, *t).map(|_| None),
            x => panic!("storm {x:?}"),
        }));
        let (res, m) = match r { Ok(Ok(m)) => ("ok".to_string(), m), Ok(Err(e)) => (format!("err:{e}"), None), Err(_) => ("panic".into(), None) };
        if !vec { v = std::fs::read(p).unwrap_or_default(); }
        let got = m.as_ref().map_or(String::new(), |m| format!("{:?} {:?}", m.get_endian(), m.get_ifds()));
        ((res, got, v), m)
    };
    let out = st.call(|| {
        let alone: Vec<(Seen, Option<Metadata>)> = (0..calls.len()).map(once).collect();
        for (k, c) in calls.iter().enumerate() { if c["o"] == "G" || c["o"] == "R" { std::fs::write(&job[k].1, &job[k].2).unwrap(); } }
        let same: Vec<(usize, String)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..calls.len()).map(|k| {
                let (once, alone) = (&once, &alone[k].0);
                s.spawn(move || {
                    let (mut n, mut other) = (0, String::new());
                    for _ in 0..rounds { let (x, _) = once(k); if x == *alone { n += 1; } else if other.is_empty() { other = x.0; } }
                    (n, other)
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or((0, "panic".into()))).collect()
        });
        (alone, same)
    });
    let recs = match out {
        Out::Val((alone, same)) => calls.iter().enumerate().map(|(k, c)| {
            let ((res, _, v), m) = &alone[k];
            let got = m.as_ref().map_or(String::new(), |m| mdict_id(d, m));
            json!({"o": c["o"], "p": c["p"], "a": c["a"], "via": c["via"], "res": res.split(':').next().unwrap(), "msg": format!("{} / {}", res, same[k].1).chars().take(90).collect::<String>(), "got": got,
                "holds": w.holds(d, job[k].0 - 1, v), "stays": (*v == job[k].2) as i32, "same": same[k].0})
        }).collect(),
        Out::Panic(l) => calls.iter().map(|c| json!({"o": c["o"], "p": c["p"], "a": c["a"], "via": c["via"], "res": "panic", "msg": l, "got": "", "holds": "", "stays": 0, "same": 0})).collect(),
        Out::Crash(x) => calls.iter().map(|c| json!({"o": c["o"], "p": c["p"], "a": c["a"], "via": c["via"], "res": x.split(':').next().unwrap(), "msg": x, "got": "", "holds": "", "stays": 0, "same": 0})).collect(),
    };
    let _ = std::fs::remove_dir_all(&dir);
    recs
}
pub fn rand_case(r: &mut Rng) -> Value {
    if r.chance(1, 6) {
        // mostly the same call, in some threads
        let o = *r.pick(&["R", "W", "W", "C", "C12"]);
        let via = *r.pick(&["file", "file", "vec"]);
        let calls: Vec<Value> = (0..r.range(3, 8)).map(|_| {
            let o = if r.chance(1, 4) { *r.pick(&["R", "W", "C", "C13", "G"]) } else { o };
            let w = *r.pick(&["a", "b", "e", "a", "e", "j"]);
            let p: Vec<&str> = if w == "e" { vec!["sub", "e"] } else { vec![w] };
            json!({"o": o, "p": p, "a": if o == "W" { format!("p{}", r.range(2, 4)) } else { String::new() }, "via": if o == "G" { "file" } else if r.chance(1, 8) { "vec" } else { via }})
        }).collect();
        let light = calls.iter().all(|c| c["via"] == "vec");
        return json!({"seed": r.below(1 << 30), "steps": [calls], "sched": [], "storm": if light { r.range(300, 1000) } else { r.range(50, 300) }});
    }
    if r.chance(1, 7) {
        // one name again and again, while somebody else works on the file, too
        let w: Vec<&str> = r.pick(&["a", "a", "sub/e", "h", "s"]).split('/').collect();
        let own = |o: &str, a: String| json!([{"o": o, "p": w, "a": a}]);
        let theirs = || json!([{"o": "X", "p": [], "a": ""}]);
        let mut steps = vec![own(if r.chance(1, 6) { "C12" } else { "R" }, String::new()), theirs()];
        for _ in 0..r.range(1, 4) { steps.push(match r.below(8) { 0 => theirs(), 1 => own("W", format!("p{}", r.range(2, 4))), 2 => own("C", String::new()), 3 => own("C13", String::new()), _ => own("R", String::new()) }); }
        return json!({"seed": r.below(1 << 30), "steps": steps, "sched": []});
    }
    let ways = ["a", "a", "a", "b", "b", "sub/e", "sub/e", "j", "h", "s", "t", "g", "o", "d", "n", "sub/u", "./a", "here/b", "sub/../h", "here/sub/u", "sub/../here/t", "k", "sub/e"];
    let file = |w: &str| match w.rsplit('/').next().unwrap() { "a" | "h" | "s" | "t" | "u" => 1, "b" => 2, "j" => 3, "k" => 4, "e" => 5, _ => 0 };
    let steps: Vec<Value> = (0..r.range(1, 6)).map(|_| {
        if r.chance(1, 8) { return json!([{"o": "X", "p": [], "a": ""}]); }
        let n = *r.pick(&[1, 1, 2, 2, 3, 4]);
        let mut used: Vec<(usize, bool)> = vec![];
        let mut calls = vec![];
        for _ in 0..n {
            let o = *r.pick(&["R", "R", "W", "W", "C", "C12", "G"]);
            let w = *r.pick(&ways);
            let (f, wr) = (file(w), o != "R" && o != "G");
            if f != 0 && used.iter().any(|u| u.0 == f && (u.1 || wr)) { continue; }
            used.push((f, wr));
            calls.push(json!({"o": o, "p": w.split('/').collect::<Vec<_>>(), "a": if o == "W" { format!("p{}", r.range(2, 4)) } else { String::new() }}));
        }
        Value::Array(calls)
    }).collect();
    let most = steps.iter().map(|s| s.as_array().unwrap().len()).max().unwrap();
    let mut sched: Vec<usize> = vec![];
    // every thread has its turns, in any step
    if r.chance(2, 3) && steps.iter().all(|s| s.as_array().unwrap().len() == most) { sched = (1..=most).collect(); for _ in 0..r.below(12) { sched.push(r.range(1, most)); } for i in (1..sched.len()).rev() { let j = r.below(i + 1); sched.swap(i, j); } }
    json!({"seed": r.below(1 << 30), "steps": steps, "sched": sched})
}
