//! Codec suite: EXIF blocks and metadata objects, decoded, edited, encoded.
use crate::cont::*;
use crate::runner::*;
use crate::store::{gi, gof};
use crate::tagtab::*;
use crate::tiffp::{self, Layout};
use crate::util::*;
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;
use serde_json::{json, Value};

/// [n, group, number, type, value (big endian bytes), data digests]
pub fn item(l: &Located) -> Value {
    let (v, d): (Vec<u8>, Vec<String>) = match &l.t.v { Val::V(c) => (compact(l.t.f, &raw(c, true), true), vec![]), Val::D(d) => (vec![], d.iter().map(|x| dig(x)).collect()) };
    json!([l.n, gi(l.t.g), l.t.x, l.t.f.code(), v, d])
}
/// The same with the data itself, as cases carry it.
pub fn full(l: &Located) -> Value {
    match &l.t.v { Val::V(c) => json!([l.n, gi(l.t.g), l.t.x, l.t.f.code(), raw(c, true)]), Val::D(d) => json!([l.n, gi(l.t.g), l.t.x, l.t.f.code(), [], d]) }
}
pub fn from_item(v: &Value) -> Located {
    let u = |i: usize| v[i].as_u64().unwrap();
    let f = F::from_code(u(3) as u16).unwrap();
    let bytes = |v: &Value| -> Vec<u8> { v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect() };
    let x = u(2) as u16;
    let val = if v[5].is_array() { Val::D(v[5].as_array().unwrap().iter().map(bytes).collect()) } else { Val::V(split(f, &bytes(&v[4]), true)) };
    Located { n: u(0) as u32, t: TagSpec { g: gof(u(1) as u8), x, f, v: val } }
}
pub fn items(l: &[Located]) -> Value { Value::Array(l.iter().map(item).collect()) }
fn empty_graph() -> Value { json!({"be": false, "len": 0, "p": [], "ifds": []}) }
fn be(m: &Metadata) -> bool { m.get_endian() == little_exif::endian::Endian::Big }

struct Run<'a> { ev: Vec<Value>, st: &'a mut Steps, m: Option<Metadata> }
impl Run<'_> {
    fn dec(&mut self, b: &[u8], again: bool) -> bool {
        let g = match tiffp::parse(b) { Ok(g) => g, Err(e) => { self.ev.push(json!({"op": "gen", "res": "ok", "msg": e})); return false; } };
        let v = b.to_vec();
        let (res, m) = self.st.res(|| Metadata::new_from_vec(&v, FileExtension::TIFF));
        let r = kind(&res);
        let (o, e) = match &m { Some(m) => (items(&located(m)), be(m)), None => (json!([]), false) };
        self.ev.push(json!({"op": "dec", "res": r, "msg": res, "g": tiffp::graph_json(&g), "o": o, "be": e, "again": again}));
        if m.is_some() { self.m = m; }
        r == "ok"
    }
    fn enc(&mut self) -> Option<Vec<u8>> {
        let m = self.m.take()?;
        let (res, b) = self.st.res(|| m.encode());
        self.m = Some(m);
        let r = kind(&res);
        let (p, g) = match b.as_deref().map(tiffp::parse) { Some(Ok(g)) => (String::new(), tiffp::graph_json(&g)), Some(Err(e)) => (e, empty_graph()), None => (String::new(), empty_graph()) };
        let h = b.as_deref().map(dig).unwrap_or_default();
        let okp = p.is_empty();
        self.ev.push(json!({"op": "enc", "res": r, "msg": res, "p": p, "g": g, "h": h}));
        if r == "ok" && okp { b } else { None }
    }
    fn edit(&mut self, op: &Value) -> bool {
        let mut m = self.m.take().unwrap();
        let l = from_item(&op[1]);
        let name = op[0].as_str().unwrap();
        let out = self.st.call(|| {
            match name {
                "set" => m.get_ifd_mut(l.t.g.lib(), l.n).set_tag(build(&l.t)),
                "top" => m.set_tag(build(&l.t)),
                "rem" => { m.remove_tag(build(&l.t)); }
                "hrem" => { m.remove_tag_by_hex_group(l.t.x, l.t.g.lib()); }
                x => panic!("op {x}"),
            }
            m
        });
        let (r, msg) = match out { Out::Val(m) => { self.m = Some(m); ("ok", String::new()) } Out::Panic(p) => ("crash", p), Out::Crash(c) => ("crash", c) };
        let o = self.m.as_ref().map(|m| items(&located(m))).unwrap_or(json!([]));
        self.ev.push(json!({"op": if name == "set" || name == "top" { "set" } else { "rem" }, "res": r, "msg": msg, "t": item(&l), "o": o}));
        r == "ok"
    }
    /// Many tags in one directory: how many are in the block, in the object decoded from it.
    fn crowd(&mut self, case: &Value, r: &mut Rng) {
        let (n, g, be) = (case["n"].as_u64().unwrap() as usize, gof(case["g"].as_u64().unwrap() as u8), case["be"].as_bool().unwrap());
        let tags: Vec<Located> = (0..n).map(|x| {
            // data and its length go together, in whatever directory they are
            let (f, v) = match x { 0x111 => (F::INT32U, Val::D(vec![vec![1, 2, 3]])), 0x117 => (F::INT32U, u32s(&[3])), 0x201 => (F::INT32U, Val::D(vec![vec![4, 5]])), 0x202 => (F::INT32U, u32s(&[2])), _ => (F::INT8U, Val::V(vec![])) };
            if matches!(x, 0x111 | 0x117 | 0x201 | 0x202) { return Located { n: 0, t: TagSpec { g, x: x as u16, f, v } }; }
            let f = row(g, x as u16).map_or(*r.pick(&F::ALL), |t| t.fmt); let k = r.below(3); Located { n: 0, t: TagSpec { g, x: x as u16, f, v: wide(f, k, true, r) } } }).collect();
        let same = |l: &[Located]| -> usize { let h: std::collections::HashSet<String> = l.iter().map(|t| item(t).to_string()).collect(); if l.len() == n { tags.iter().filter(|t| h.contains(&item(t).to_string())).count() } else { l.len() } };
        let mut e = json!({"op": "crowd", "n": n, "cnt": n, "back": n, "p": "", "res": "ok", "msg": "", "via": case["via"]});
        let (res, b) = if case["via"] == "blk" { ("ok".to_string(), Some(tiffp::write(be, &tags, &Layout::default(), r))) } else {
            let made = self.st.call(|| { let mut m = lib_metadata(be, &[]); *m.get_ifd_mut(g.lib(), 0) = little_exif::ifd::ImageFileDirectory::new_with_tags(tags.iter().map(|l| build(&l.t)).collect(), g.lib(), 0); m });
            match made { Out::Val(m) => self.st.res(|| m.encode()), Out::Panic(p) | Out::Crash(p) => (p, None) }
        };
        e["res"] = json!(kind(&res)); e["msg"] = json!(res);
        if let Some(b) = b {
            match tiffp::parse(&b) { Ok(q) => e["cnt"] = json!(same(&tiffp::content(&q))), Err(p) => e["p"] = json!(p) }
            let (res, m) = self.st.res(|| Metadata::new_from_vec(&b, FileExtension::TIFF));
            e["back"] = json!(-1);
            match m { Some(m) => e["back"] = json!(same(&located(&m))), None => { if kind(&res) == "crash" { e["res"] = json!("crash") } e["msg"] = json!(res) } }
        }
        self.ev.push(e);
    }
    /// encode, decode, encode: nothing changes any more
    fn settle(&mut self) -> bool {
        match self.enc() { Some(b) => self.dec(&b, true) && self.enc().is_some(), None => false }
    }
}
/// Directories of one or two entries with arbitrary links.
fn links(be: bool, case: &Value) -> Vec<u8> {
    let a = |k: &str| -> Vec<u32> { case[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect() };
    let (next, ptr, to) = (a("next"), a("ptr"), a("to"));
    // a second pointer of the same kind
    let dup: Vec<u32> = if case["dup"].is_array() { a("dup") } else { vec![0; next.len()] };
    let at = |d: u32| if d == 0 { 0u32 } else { 8 + (d - 1) * 46 };
    let mut b: Vec<u8> = if be { b"MM\0\x2a".to_vec() } else { b"II\x2a\0".to_vec() };
    let p16 = |b: &mut Vec<u8>, v: u16| b.extend(if be { v.to_be_bytes() } else { v.to_le_bytes() });
    let p32 = |b: &mut Vec<u8>, v: u32| b.extend(if be { v.to_be_bytes() } else { v.to_le_bytes() });
    p32(&mut b, 8);
    for d in 0..next.len() {
        b.resize(at(d as u32 + 1) as usize, 0);
        p16(&mut b, 1 + (ptr[d] != 0) as u16 + (ptr[d] != 0 && dup[d] != 0) as u16);
        if ptr[d] != 0 { p16(&mut b, ptr[d] as u16); p16(&mut b, 4); p32(&mut b, 1); p32(&mut b, at(to[d])); }
        if ptr[d] != 0 && dup[d] != 0 { p16(&mut b, ptr[d] as u16); p16(&mut b, 4); p32(&mut b, 1); p32(&mut b, at(dup[d])); }
        p16(&mut b, 0xc000 + d as u16); p16(&mut b, 3); p32(&mut b, 1); p16(&mut b, d as u16 + 7); p16(&mut b, 0);
        p32(&mut b, at(next[d]));
    }
    b.resize(at(next.len() as u32 + 1) as usize, 0);
    b
}
fn kind(res: &str) -> &'static str { if res == "ok" { "ok" } else if res.starts_with("err") { "err" } else { "crash" } }

pub fn run(case: &Value, st: &mut Steps) -> Value {
    let seed = case["seed"].as_u64().unwrap();
    let mut r = Rng::new(seed);
    let wantbe = case["be"].as_bool().unwrap_or(false);
    let content: Vec<Located> = case["c"].as_array().map(|a| a.iter().map(from_item).collect()).unwrap_or_default();
    let ops: Vec<Value> = case["ops"].as_array().cloned().unwrap_or_default();
    let mut run = Run { ev: vec![], st, m: None };
    let mut ok = true;
    match case["kind"].as_str().unwrap() {
        "obj" => {
            // in any order: the object sorts
            let mut c = content.clone();
            for i in (1..c.len()).rev() { let j = r.below(i + 1); c.swap(i, j); }
            let out = run.st.call(|| lib_metadata(wantbe, &c));
            let mut e = json!({"op": "obj", "res": "crash", "c": items(&content), "o": [], "be": false, "wantbe": wantbe});
            match out {
                Out::Val(m) => { e["res"] = json!("ok"); e["o"] = items(&located(&m)); e["be"] = json!(be(&m)); run.m = Some(m); }
                Out::Panic(p) => { e["msg"] = json!(p); ok = false }
                Out::Crash(p) => { e["msg"] = json!(p); ok = false }
            }
            run.ev.push(e);
        }
        "blk" => {
            let l = &case["lay"];
            let f = |k: &str| l[k].as_bool().unwrap_or(false);
            let lay = Layout { shuffle: f("shuffle"), gaps: f("gaps"), unaligned: f("unaligned"), nul: f("nul"), short_ints: f("short"), unsorted: f("unsorted"), junk_sub_next: f("junk"), end_sub_nolink: false,
                order: l["order"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default(), share: f("share") };
            let b = tiffp::write(wantbe, &content, &lay, &mut r);
            ok = run.dec(&b, false);
        }
        "links" => {
            let b = links(wantbe, case);
            if tiffp::parse(&b).is_ok() { ok = run.dec(&b, false); }
            else {
                let (res, _) = run.st.res(|| Metadata::new_from_vec(&b, FileExtension::TIFF));
                run.ev.push(json!({"op": "cyc", "res": kind(&res), "msg": res}));
                ok = false;
            }
        }
        "crowd" => { run.crowd(case, &mut r); ok = false; }
        k => panic!("kind {k}"),
    }
    ok = ok && run.settle();
    for o in &ops { ok = ok && run.edit(o); }
    if !ops.is_empty() && ok { run.settle(); }
    let mut c = case.clone();
    if let Some(a) = c.get_mut("c").and_then(|v| v.as_array_mut()) { for t in a { if t[4].as_array().is_some_and(|v| v.len() > LONG) { t[4] = json!([]); } } }
    for k in ["id", "suite", "seed", "stop"] { c.as_object_mut().unwrap().remove(k); }
    json!({"id": case["id"], "case": c, "ev": run.ev})
}

/// Any value: every bit pattern, also empty and not-a-number.
fn wide(f: F, n: usize, utf8: bool, r: &mut Rng) -> Val {
    let v = rand_val(f, n, r);
    if let (F::FLOAT | F::DOUBLE, Val::V(mut c)) = (f, v.clone()) {
        for x in c.iter_mut() { if r.chance(1, 3) { x[0] = r.bytes(f.size()); x[0][0] |= 0x7f; x[0][1] |= 0xf0; } }
        return Val::V(c);
    }
    if let (F::STRING, Val::V(mut c)) = (f, v.clone()) {
        if !utf8 && r.chance(1, 2) { for x in c.iter_mut() { if r.chance(1, 4) { x[0][0] = 0x80 | r.next() as u8 } } }
        if c.len() > 2 && r.chance(1, 8) { let k = r.below(c.len() - 1); c[k] = vec![vec![0]]; }
        while c.last().is_some_and(|x| x[0][0] == 0) { c.pop(); }
        if utf8 { if let Err(_) = String::from_utf8(c.iter().map(|x| x[0][0]).collect()) { for x in c.iter_mut() { x[0][0] &= 0x7f; if x[0][0] == 0 { x[0][0] = 65 } } } }
        return Val::V(c);
    }
    v
}
fn rand_tag(n: u32, g: G, block: bool, r: &mut Rng) -> Located {
    let (x, f);
    let mut cnt = match r.below(8) { 0 => 0, 1..=3 => 1, 4..=6 => r.range(2, 6), _ => r.range(7, 24) };
    if r.chance(1, 4) {
        x = loop { let x = if r.chance(1, 3) { r.next() as u16 } else { 0xc000 + r.below(0x300) as u16 }; if row(g, x).is_none() && ![0x111, 0x117, 0x201, 0x202].contains(&x) { break x } };
        f = *r.pick(&F::ALL);
    } else {
        let cand: Vec<&Row> = TABLE.iter().filter(|t| t.grp == g && !tiffp::OFFSET_TAGS.contains(&(t.grp, t.hex))).collect();
        let t = r.pick(&cand);
        x = t.hex;
        let mut tf = t.fmt;
        if block && r.chance(1, 8) { tf = match (tf, r.below(3)) { (F::INT32U, 0) => F::INT16U, (F::INT32U, _) => F::INT8U, (F::INT16U, 0) => F::INT8U, (F::INT16U, _) => F::INT32U, (F::RATIONAL64S, _) => F::RATIONAL64U, (F::INT8U, _) => F::INT16U, (f, 0) => if r.chance(1, 6) { *r.pick(&F::ALL) } else { f }, (f, _) => f }; }
        f = tf;
        if t.count > 0 && r.chance(2, 3) { cnt = t.count as usize; }
    }
    if f == F::STRING && cnt > 0 && r.chance(1, 2) { cnt = r.range(1, 30); }
    let mut v = wide(f, cnt, !block, r);
    // numbers that fit are the more interesting conversions
    if let (true, Some(t), Val::V(c)) = (block, row(g, x), &mut v) {
        if t.fmt != f && r.chance(4, 5) { for q in c.iter_mut() { if matches!(f, F::INT16U | F::INT32U) { let k = q[0].len() - t.fmt.size().min(q[0].len()); for z in 0..k { q[0][z] = 0; } } if f == F::RATIONAL64U { q[0][0] &= 0x7f; q[1][0] &= 0x7f; } } }
    }
    Located { n, t: TagSpec { g, x, f, v } }
}
fn u32s(v: &[usize]) -> Val { Val::V(v.iter().map(|x| vec![(*x as u32).to_be_bytes().to_vec()]).collect()) }
pub fn rand_content(block: bool, r: &mut Rng) -> Vec<Located> {
    let maxn = *r.pick(&[0, 0, 0, 1, 1, 2]);
    let mut c: Vec<Located> = vec![];
    for n in 0..=maxn {
        let groups: Vec<G> = G::ALL.iter().cloned().filter(|g| *g == G::GENERIC && n > 0 || r.chance(1, 2)).collect();
        for g in groups {
            for _ in 0..r.range(1, 6) { let t = rand_tag(n, g, block, r); if !c.iter().any(|q| q.n == n && q.t.g == t.t.g && q.t.x == t.t.x) { c.push(t) } }
        }
        if n > 0 && !c.iter().any(|t| t.n == n) { c.push(Located { n, t: TagSpec { g: G::GENERIC, x: 0x112, f: F::INT16U, v: Val::V(vec![vec![vec![0, 1]]]) } }); }
        let mut data = |x: u16, lx: u16, parts: Vec<Vec<u8>>| {
            let l: Vec<usize> = parts.iter().map(|p| p.len()).collect();
            c.push(Located { n, t: TagSpec { g: G::GENERIC, x, f: F::INT32U, v: Val::D(parts) } });
            c.push(Located { n, t: TagSpec { g: G::GENERIC, x: lx, f: F::INT32U, v: u32s(&l) } });
        };
        if r.chance(1, 4) { let k = r.range(1, 4); data(0x111, 0x117, (0..k).map(|_| { let n = r.range(0, 40); r.bytes(n) }).collect()); }
        if r.chance(1, 5) { let k = r.range(0, 50); data(0x201, 0x202, vec![r.bytes(k)]); }
    }
    // unusual amounts: many entries, many pages, long values
    match r.below(60) {
        0 => { let g = *r.pick(&G::ALL); let k = r.range(100, 520); let n = r.below(2) as u32; for i in 0..k { let f = *r.pick(&F::ALL); c.push(Located { n, t: TagSpec { g, x: 0xc400 + i as u16, f, v: wide(f, r.range(0, 6), !block, r) } }); } }
        1 => { for n in maxn + 1..if r.chance(1, 5) { r.range(100, 300) } else { r.range(4, 40) } as u32 { c.push(rand_tag(n, G::GENERIC, block, r)); } }
        2 => { let f = *r.pick(&[F::INT8U, F::UNDEF, F::INT16U, F::INT32U, F::RATIONAL64S]); let k = *r.pick(&[255usize, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000]) / if f.size() > 1 { 4 } else { 1 }; c.push(Located { n: 0, t: TagSpec { g: *r.pick(&G::ALL), x: 0xc300, f, v: wide(f, k, !block, r) } }); }
        3 => { let k = r.range(200, 1500); c.push(Located { n: 0, t: TagSpec { g: *r.pick(&G::ALL), x: 0xc300, f: F::STRING, v: wide(F::STRING, k, !block, r) } }); }
        _ => {}
    }
    let mut seen = std::collections::HashSet::new();
    c.retain(|l| seen.insert((l.n, l.t.g, l.t.x)));
    c.sort();
    c
}
pub fn rand_case(r: &mut Rng) -> Value {
    let block = r.chance(2, 3);
    let mut c = rand_content(block, r);
    if !block { c.retain(|l| row(l.t.g, l.t.x).is_none_or(|t| t.fmt == l.t.f)); }
    // an object can also hold pointers, which mean nothing
    if !block && r.chance(1, 6) {
        let (g, x) = *r.pick(&tiffp::OFFSET_TAGS);
        let k = r.range(0, 3);
        let l = Located { n: r.below(2) as u32, t: TagSpec { g, x, f: F::INT32U, v: rand_val(F::INT32U, k, r) } };
        if c.iter().any(|q| q.n >= l.n) { c.push(l); c.sort(); }
    }
    let mut ops = vec![];
    for _ in 0..r.below(4) {
        let l = if r.chance(1, 2) && !c.is_empty() { r.pick(&c).clone() } else { let g = *r.pick(&G::ALL); rand_tag(0, g, false, r) };
        if matches!(l.t.v, Val::D(_)) || [0x117, 0x202].contains(&l.t.x) || !row(l.t.g, l.t.x).is_none_or(|t| t.fmt == l.t.f) { continue; }
        match r.below(3) {
            0 => ops.push(json!(["rem", full(&Located { n: 0, t: TagSpec { v: wide(l.t.f, 1, true, r), ..l.t } })])),
            1 => ops.push(json!(["hrem", full(&Located { n: 0, t: TagSpec { v: wide(l.t.f, 1, true, r), ..l.t } })])),
            _ => { let k = r.range(0, 9); ops.push(json!([if l.n == 0 { "top" } else { "set" }, full(&Located { n: l.n, t: TagSpec { v: wide(l.t.f, k, true, r), ..l.t } })])) }
        }
    }
    if block && r.chance(1, 12) {
        // directories must not hold a tag twice, but there are such files
        let k = r.range(3, 5);
        let list = |r: &mut Rng, v: &[u32]| -> Vec<u32> { (0..k).map(|_| *r.pick(v)).collect() };
        let to: Vec<u32> = (1..=k as u32).collect();
        let mut z = to.clone(); z.extend([0; 4]);
        let next: Vec<u32> = (0..k as u32).map(|i| if r.chance(1, 3) { i + 2 } else { 0 }).map(|x| if x > k as u32 { 0 } else { x }).collect();
        return json!({"kind": "links", "seed": 0, "be": r.chance(1, 2), "next": next, "ptr": list(r, &[0, 0x8769, 0x8769, 0x8825, 0xa005]), "to": list(r, &to), "dup": list(r, &z)});
    }
    if block && r.chance(1, 10) {
        let cand: Vec<Located> = c.iter().filter(|l| !matches!(l.t.v, Val::D(_)) && ![0x117, 0x202].contains(&l.t.x)).cloned().collect();
        for _ in 0..r.range(1, 2) { if !cand.is_empty() {
            let l = r.pick(&cand).clone();
            let f = if row(l.t.g, l.t.x).is_none() && r.chance(1, 2) { *r.pick(&F::ALL) } else { l.t.f };
            let k = r.range(0, 5);
            c.push(Located { n: l.n, t: TagSpec { f, v: wide(f, k, false, r), ..l.t } });
        } }
        c.sort();
    }
    let b = |r: &mut Rng| r.chance(1, 3);
    let lay = json!({"shuffle": b(r), "gaps": b(r), "unaligned": b(r), "nul": b(r) || b(r), "short": b(r), "unsorted": false, "junk": b(r), "share": b(r)});
    json!({"kind": if block { "blk" } else { "obj" }, "seed": r.below(1 << 30), "be": r.chance(1, 2), "c": c.iter().map(full).collect::<Vec<_>>(), "lay": lay, "ops": ops})
}
