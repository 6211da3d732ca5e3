//! Rational suite: conversions between floats, integers and rationals.
use crate::runner::*;
use crate::util::*;
use little_exif::rational::*;
use serde_json::{json, Value};

fn limbs(mut v: u64) -> Value { let mut o = vec![]; while v > 0 { o.push(v % 4096); v /= 4096; } json!(o) }
fn float(x: f64) -> Value {
    let b = x.to_bits();
    let (s, e, m) = (b >> 63 == 1, (b >> 52 & 0x7ff) as i64, b & ((1 << 52) - 1));
    if e == 0x7ff { return json!({"c": if m == 0 { "inf" } else { "nan" }, "s": s, "m": [], "e": 0}); }
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    if m == 0 { return json!({"c": "fin", "s": s, "m": [], "e": 0}); }
    while m % 2 == 0 { m /= 2; e += 1; }
    // far below and above everything that can be expressed
    if e < -150 { return json!({"c": "fin", "s": s, "m": [1], "e": -120}); }
    if e > 60 { return json!({"c": "fin", "s": s, "m": [1], "e": 100}); }
    json!({"c": "fin", "s": s, "m": limbs(m), "e": e})
}
/// u, v with u n - v d = 1, if there are any
fn witness(n: u64, d: u64) -> Value {
    if n == 0 || d == 0 { return json!([[], []]); }
    let (mut r0, mut r1, mut s0, mut s1) = (n as i128, d as i128, 1i128, 0i128);
    while r1 != 0 { let q = r0 / r1; (r0, r1) = (r1, r0 - q * r1); (s0, s1) = (s1, s0 - q * s1); }
    if r0 != 1 { return json!([[], []]); }
    let mut u = s0.rem_euclid(d as i128);
    if u * (n as i128) < 1 { u += d as i128; }
    let v = (u * n as i128 - 1) / d as i128;
    json!([limbs(u as u64), limbs(v as u64)])
}
fn res<T>(o: Out<T>) -> (String, Option<T>) { match o { Out::Val(v) => ("ok".into(), Some(v)), Out::Panic(l) => (format!("panic:{l}"), None), Out::Crash(c) => (c, None) } }
fn ratio(n: i64, d: i64) -> Value {
    json!({"n": limbs(n.unsigned_abs()), "d": limbs(d.unsigned_abs()), "neg": n < 0, "dneg": d < 0, "w": witness(n.unsigned_abs(), d.unsigned_abs())})
}
pub fn run(case: &Value, st: &mut Steps) -> Value {
    let mut ev = vec![];
    let mut put = |k: &str, r: String, mut v: Value, what: String| { v["k"] = json!(k); v["res"] = json!(r.split(':').next().unwrap()); v["what"] = json!(format!("{what} {r}")); ev.push(v); };
    let i = |k: &str| case[k].as_i64().unwrap();
    let (mut us, mut is) = (vec![], vec![]);
    match case["k"].as_str().unwrap() {
        k @ ("frac" | "bits") => {
            let (x, ex) = if k == "frac" { (i("p") as f64 / i("q") as f64, json!([i("p"), i("q")])) } else { (f64::from_bits(u64::from_str_radix(case["bits"].as_str().unwrap(), 16).unwrap()), json!([])) };
            for x in [x, -x] {
                let (r, v) = res(st.call(|| uR64::from(x)));
                let mut o = v.as_ref().map_or(json!({}), |v| ratio(v.nominator as i64, v.denominator as i64));
                o["x"] = float(x);
                o["ex"] = ex.clone();
                put("f2u", r, o, format!("{x:e} -> {v:?}"));
                us.extend(v);
                let (r, v) = res(st.call(|| iR64::from(x)));
                let mut o = v.as_ref().map_or(json!({}), |v| ratio(v.nominator as i64, v.denominator as i64));
                o["x"] = float(x);
                o["ex"] = ex.clone();
                put("f2i", r, o, format!("{x:e} -> {v:?}"));
                is.extend(v);
            }
        }
        "int" => {
            let n = i("n");
            if let Ok(u) = u32::try_from(n) {
                for k in ["u2u", "u2i"] {
                    let (r, v) = res(st.call(|| if k == "u2u" { let r = uR64::from(u); (r.nominator as i64, r.denominator as i64) } else { let r = iR64::from(u); (r.nominator as i64, r.denominator as i64) }));
                    let mut o = v.map_or(json!({}), |v| ratio(v.0, v.1));
                    o["v"] = limbs(u as u64);
                    o["vneg"] = json!(false);
                    put(k, r, o, format!("{n} -> {v:?}"));
                }
            }
            if let Ok(s) = i32::try_from(n) {
                let (r, v) = res(st.call(|| iR64::from(s)));
                let mut o = v.as_ref().map_or(json!({}), |v| ratio(v.nominator as i64, v.denominator as i64));
                o["v"] = limbs(n.unsigned_abs());
                o["vneg"] = json!(n < 0);
                put("i2i", r, o, format!("{n} -> {v:?}"));
            }
        }
        _ => {
            if let (Ok(n), Ok(d)) = (u32::try_from(i("n")), u32::try_from(i("d"))) { us.push(uR64 { nominator: n, denominator: d }) }
            if let (Ok(n), Ok(d)) = (i32::try_from(i("n")), i32::try_from(i("d"))) { is.push(iR64 { nominator: n, denominator: d }) }
        }
    }
    for u in us {
        let (r, v) = res(st.call(|| f64::from(u.clone())));
        let mut o = ratio(u.nominator as i64, u.denominator as i64);
        o["x"] = float(v.unwrap_or(0.0));
        put("u2f", r, o, format!("{u:?} -> {v:?}"));
        let (r, v) = res(st.call(|| u32::from(u.clone())));
        let mut o = ratio(u.nominator as i64, u.denominator as i64);
        o["v"] = limbs(v.unwrap_or(0) as u64);
        put("u2n", r, o, format!("{u:?} -> {v:?}"));
    }
    for u in is {
        let (r, v) = res(st.call(|| f64::from(u.clone())));
        let mut o = ratio(u.nominator as i64, u.denominator as i64);
        o["x"] = float(v.unwrap_or(0.0));
        put("i2f", r, o, format!("{u:?} -> {v:?}"));
        let (r, v) = res(st.call(|| u32::from(u.clone())));
        let mut o = ratio(u.nominator as i64, u.denominator as i64);
        o["v"] = limbs(v.unwrap_or(0) as u64);
        put("i2n", r, o, format!("{u:?} -> {v:?}"));
    }
    json!({"id": case["id"], "case": {"k": case["k"]}, "ev": ev})
}
pub fn rand_case(r: &mut Rng) -> Value {
    fn edge(r: &mut Rng, hi: i64) -> i64 { match r.below(5) { 0 => *r.pick(&[0, 1, 2, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff]), 1 => r.range(0, 300) as i64, 2 => { let w = r.range(1, 32); (r.next() % (1u64 << w)) as i64 } _ => (r.next() % (hi as u64 + 1)) as i64 } };
    match r.below(10) {
        0..=2 => { let q = r.range(1, 100000); let top = if r.chance(1, 2) { q } else { 1000000 }; json!({"k": "frac", "p": r.range(0, top), "q": q}) }
        3..=6 => {
            let x = match r.below(9) {
                0 => f64::from_bits(r.next()),
                1 => *r.pick(&[0.0, f64::NAN, f64::INFINITY, f64::MIN_POSITIVE, f64::MAX, f64::EPSILON, 5e-324, 1e-9, 2e-9, 4.656612873e-10, 1e-5, std::f64::consts::PI, std::f64::consts::E, 1.618033988749895, std::f64::consts::SQRT_2]),
                2 => edge(r, 0xffff_ffff) as f64 + *r.pick(&[0.0, 0.25, 0.5, 0.75, -0.5, 1e-6]),
                3 => { let d = edge(r, 0xffff_ffff).max(1); edge(r, 0xffff_ffff) as f64 / d as f64 }
                4 => { let b = (r.range(1, 90000) as f64 / r.range(1, 90000) as f64).to_bits(); f64::from_bits((b + r.below(5) as u64).saturating_sub(2)) }
                5 => (r.next() >> 11) as f64 / (1u64 << 53) as f64,
                6 => { let w = r.range(20, 60); (r.next() >> 11) as f64 / (1u64 << w) as f64 }
                7 => { let e = r.range(0, 24) as i32 - 12; (r.next() >> 11) as f64 / (1u64 << 53) as f64 * 10f64.powi(e) }
                _ => r.range(0, 360000000) as f64 / 1e6,
            };
            json!({"k": "bits", "bits": format!("{:x}", x.abs().to_bits())})
        }
        7 => { let v = edge(r, 0xffff_ffff); json!({"k": "int", "n": if r.chance(1, 3) { -(v & 0x7fff_ffff) - r.below(2) as i64 } else { v }}) }
        _ => { let (n, d) = (edge(r, 0xffff_ffff), edge(r, 0xffff_ffff)); if r.chance(1, 3) { json!({"k": "rat", "n": -(n & 0x7fff_ffff), "d": if r.chance(1, 3) { -(d & 0x7fff_ffff) } else { d & 0x7fff_ffff }}) } else { json!({"k": "rat", "n": n, "d": d}) } }
    }
}
