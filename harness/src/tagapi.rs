//! Tag suite: what single tags say about themselves, the table, byte conversions.
use crate::runner::*;
use crate::store::{gi, gof};
use crate::tagtab::*;
use crate::util::*;
use little_exif::endian::Endian;
use little_exif::exif_tag::{ExifTag, TagType};
use little_exif::exif_tag_format::ExifTagFormat;
use little_exif::ifd::{ExifTagGroup, ImageFileDirectory};
use little_exif::rational::*;
use little_exif::u8conversion::U8conversion;
use serde_json::{json, Value};

const ENDS: [(bool, Endian); 2] = [(false, Endian::Little), (true, Endian::Big)];
fn lib_group(g: u8) -> ExifTagGroup { gof(g).lib() }
fn about(t: &ExifTag) -> Value {
    let ty = t.get_tag_type();
    json!({"x": t.as_u16(), "g": gi(G::of(t.get_group())), "f": t.format().as_u16(), "s": t.is_string(), "n": t.number_of_components(),
        "le": t.value_as_u8_vec(&Endian::Little), "be": t.value_as_u8_vec(&Endian::Big), "w": t.is_writable(), "u": t.is_unknown(), "j": t.unknown_is_justified(),
        "to": if let TagType::IFD_OFFSET(g) = ty { gi(G::of(g)) } else { 0 }, "data": matches!(ty, TagType::DATA_OFFSET(_))})
}
fn kind(t: &ExifTag) -> &'static str {
    match t { ExifTag::StripOffsets(..) => "strips", ExifTag::StripByteCounts(..) => "counts", ExifTag::ThumbnailOffset(..) => "thumb", ExifTag::ThumbnailLength(..) => "length", _ if format!("{t:?}").starts_with("Unknown") => "unknown", _ => "known" }
}
/// the value (for strips and thumbnails: the offsets) as big endian bytes
fn value(t: &ExifTag) -> Vec<u8> {
    match t {
        ExifTag::StripOffsets(o, _) => raw(&o.to_comps(), true),
        ExifTag::ThumbnailOffset(o, _) => raw(&o.to_comps(), true),
        _ => match spec_of(t, G::of(t.get_group())).v { Val::V(c) => raw(&c, true), Val::D(d) => d.concat() },
    }
}
fn word<T>(o: Out<T>) -> (String, Option<T>) { match o { Out::Val(v) => ("ok".into(), Some(v)), Out::Panic(l) => (format!("panic:{l}"), None), Out::Crash(c) => (c, None) } }
/// an answer, an error or worse
fn answer<T, E: std::fmt::Debug>(o: Out<Result<T, E>>) -> (String, Option<T>) {
    match word(o) { (_, Some(Ok(v))) => ("ok".into(), Some(v)), (_, Some(Err(e))) => (format!("err:{e:?}"), None), (r, None) => (r, None) }
}
fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect() }

pub fn run(case: &Value, st: &mut Steps) -> Value {
    let mut ev: Vec<Value> = vec![];
    let mut put = |op: &str, r: &str, mut v: Value| { v["op"] = json!(op); v["res"] = json!(r.split(':').next().unwrap()); v["what"] = json!(r); ev.push(v); };
    let i = |k: &str| case[k].as_u64().unwrap();
    match case["k"].as_str().unwrap() {
        "page" => {
            let (g, p) = (i("g") as u8, i("p") as u16);
            let (r, o) = word(st.call(|| {
                let got: Vec<Value> = (p * 256..=p * 256 + 255).filter_map(|x| ExifTag::from_u16(x, &lib_group(g)).ok().map(|t| about(&t))).collect();
                let types: Vec<Value> = (p * 256..=p * 256 + 255).filter_map(|c| ExifTagFormat::from_u16(c).map(|f| json!([c, f.as_u16(), f.bytes_per_component()]))).collect();
                let dirs: Vec<Value> = G::ALL.iter().map(|g| match ImageFileDirectory::new_with_tags(vec![], g.lib(), 0).get_offset_tag_for_parent_ifd() {
                    Some((up, t)) => json!([gi(G::of(up)), t.as_u16(), ImageFileDirectory::get_ifd_type_for_offset_tag(&t).map_or(0, |g| gi(G::of(g)))]),
                    None => json!([0, 0, 0]),
                }).collect();
                (got, types, dirs)
            }));
            let (got, types, dirs) = o.unwrap_or_default();
            put("page", &r, json!({"g": g, "p": p, "got": got, "types": types, "dirs": dirs}));
        }
        "make" => {
            let (g, x, f, be, b) = (i("g") as u8, i("x") as u16, i("f") as u16, case["be"].as_bool().unwrap(), bytes(&case["b"]));
            let end = if be { Endian::Big } else { Endian::Little };
            let (r, o) = answer(st.call(|| ExifTag::from_u16_with_data(x, &F::from_code(f).unwrap().lib(), &b, &end, &lib_group(g))));
            let (mut v, mut k, mut a) = (vec![], "", json!({}));
            if let Some(t) = &o { v = value(t); k = kind(t); a = about(t); }
            put("make", &r, json!({"g": g, "x": x, "f": f, "be": be, "b": b, "v": v, "kind": k, "a": a}));
        }
        "tag" => {
            let (g, x, f, b, nd) = (i("g") as u8, i("x") as u16, i("f") as u16, bytes(&case["b"]), i("nd") as usize);
            let (t, sp) = direct(case["kind"].as_str().unwrap(), g, x, F::from_code(f).unwrap(), &b, nd);
            let (r, a) = word(st.call(|| about(&t)));
            put("tag", &r, json!({"t": sp, "a": a.unwrap_or(json!({}))}));
        }
        "conv" => {
            let b = bytes(&case["b"]);
            macro_rules! conv { ($($t:ty, $w:expr, $fw:expr);*) => { $( for (be, end) in &ENDS {
                let (r, o) = answer(st.call(|| <$t as U8conversion<$t>>::from_u8_vec_res(&b, end)));
                let (v, l, g) = o.map_or((vec![], vec![], vec![]), |v| (raw(&vec![v.clone()].to_comps(), true), v.to_u8_vec(&Endian::Little), v.to_u8_vec(&Endian::Big)));
                put("conv", &r, json!({"w": $w, "fw": $fw, "vec": false, "be": be, "b": b, "v": v, "ol": l, "ob": g}));
                let (r, o) = answer(st.call(|| <Vec<$t> as U8conversion<Vec<$t>>>::from_u8_vec_res(&b, end)));
                let (v, l, g) = o.map_or((vec![], vec![], vec![]), |v| (raw(&v.to_comps(), true), v.to_u8_vec(&Endian::Little), v.to_u8_vec(&Endian::Big)));
                put("conv", &r, json!({"w": $w, "fw": $fw, "vec": true, "be": be, "b": b, "v": v, "ol": l, "ob": g}));
            } )* } }
            conv!(u8, 1, 1; i8, 1, 1; u16, 2, 2; i16, 2, 2; u32, 4, 4; i32, 4, 4; u64, 8, 8; i64, 8, 8; f32, 4, 4; f64, 8, 8; uR64, 8, 4; iR64, 8, 4);
            for (_, end) in &ENDS {
                let (r, o) = answer(st.call(|| <String as U8conversion<String>>::from_u8_vec_res(&b, end)));
                let (v, l, g) = o.map_or((vec![], vec![], vec![]), |v| (v.as_bytes().to_vec(), v.to_u8_vec(&Endian::Little), v.to_u8_vec(&Endian::Big)));
                put("text", &r, json!({"b": b, "v": v, "ol": l, "ob": g}));
            }
        }
        k => panic!("case {k}"),
    }
    json!({"id": case["id"], "ev": ev})
}
/// a tag built from its variant, and what the specification calls it
fn direct(kind: &str, g: u8, x: u16, f: F, b: &[u8], nd: usize) -> (ExifTag, Value) {
    let whole = b.len() - b.len() % f.size();
    let c = split(f, &b[..whole], true);
    let longs: Vec<u32> = b.chunks_exact(4).map(be32).collect();
    let (t, g, x, f, v) = match kind {
        "strips" => (ExifTag::StripOffsets(longs.clone(), vec![vec![1, 2]; nd]), 1, 0x111, F::INT32U, raw(&longs.to_comps(), true)),
        "counts" => (ExifTag::StripByteCounts(longs.clone()), 1, 0x117, F::INT32U, raw(&longs.to_comps(), true)),
        "thumb" => (ExifTag::ThumbnailOffset(longs.clone(), vec![9; 2 * nd]), 1, 0x201, F::INT32U, raw(&longs.to_comps(), true)),
        "length" => (ExifTag::ThumbnailLength(longs.clone()), 1, 0x202, F::INT32U, raw(&longs.to_comps(), true)),
        "known" => { let r = row(gof(g), x).unwrap(); let c = split(r.fmt, &b[..b.len() - b.len() % r.fmt.size()], true); (build_known(gof(g), x, &c).unwrap(), g, x, r.fmt, raw(&c, true)) }
        _ => {
            let l = lib_group(g);
            let t = match f {
                F::INT8U => ExifTag::UnknownINT8U(Comps::from_comps(&c), x, l),
                F::STRING => ExifTag::UnknownSTRING(Comps::from_comps(&c), x, l),
                F::INT16U => ExifTag::UnknownINT16U(Comps::from_comps(&c), x, l),
                F::INT32U => ExifTag::UnknownINT32U(Comps::from_comps(&c), x, l),
                F::RATIONAL64U => ExifTag::UnknownRATIONAL64U(Comps::from_comps(&c), x, l),
                F::INT8S => ExifTag::UnknownINT8S(Comps::from_comps(&c), x, l),
                F::UNDEF => ExifTag::UnknownUNDEF(Comps::from_comps(&c), x, l),
                F::INT16S => ExifTag::UnknownINT16S(Comps::from_comps(&c), x, l),
                F::INT32S => ExifTag::UnknownINT32S(Comps::from_comps(&c), x, l),
                F::RATIONAL64S => ExifTag::UnknownRATIONAL64S(Comps::from_comps(&c), x, l),
                F::FLOAT => ExifTag::UnknownFLOAT(Comps::from_comps(&c), x, l),
                F::DOUBLE => ExifTag::UnknownDOUBLE(Comps::from_comps(&c), x, l),
            };
            (t, g, x, f, raw(&c, true))
        }
    };
    (t, json!({"k": kind, "g": g, "x": x, "f": f.code(), "v": v, "nd": nd}))
}
pub fn rand_case(r: &mut Rng) -> Value {
    // more than a byte can count, once in a while
    let n = if r.chance(1, 30) { r.range(255, 1300) } else { *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 40, 63]) };
    let ascii = r.chance(1, 3);
    let b: Vec<u8> = (0..n).map(|_| if ascii { *r.pick(b"ab Z\0") } else { r.below(256) as u8 }).collect();
    let g = r.range(1, 4);
    let known: Vec<u16> = TABLE.iter().filter(|t| gi(t.grp) as usize == g as usize).map(|t| t.hex).collect();
    let x = match r.below(5) { 0 => r.below(65536) as u16, 1 => *r.pick(&[0x111u16, 0x117, 0x201, 0x202]), 2 => r.pick(TABLE).hex, _ => *r.pick(&known) };
    let f = r.range(1, 12);
    match r.below(5) {
        0..=1 => json!({"k": "make", "g": g, "x": x, "f": f, "be": r.chance(1, 2), "b": b}),
        2 => json!({"k": "conv", "b": b}),
        _ => {
            let kind = *r.pick(&["unknown", "unknown", "known", "known", "strips", "counts", "thumb", "length"]);
            let nd = if r.chance(1, 6) { r.range(255, 300) } else if r.chance(1, 12) { r.range(65530, 66000) } else { r.below(4) };
            let (g, x) = if kind == "known" { let t = r.pick(TABLE); (gi(t.grp) as u64, t.hex) } else { (g as u64, x) };
            // values of text are text
            let text = if kind == "known" { row(gof(g as u8), x).unwrap().fmt == F::STRING } else { f == 2 };
            let b: Vec<u8> = if text { b.iter().map(|c| c % 127 + 1).collect() } else { b };
            json!({"k": "tag", "kind": kind, "g": g, "x": x, "f": f, "b": b, "nd": nd})
        }
    }
}
