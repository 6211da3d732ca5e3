mod cont; mod container; mod jpeg; mod jxl; mod png; mod runner; mod tagtab; mod tiffp; mod util; mod webp; mod xmpx;
mod store; mod codec; mod heif; mod tiffile; mod gen; mod robust; mod ftype; mod export; mod ratio; mod tagapi; mod sysfault; mod fault; mod fsys;
#[global_allocator]
static A: runner::Counting = runner::Counting;
use serde_json::Value;
use std::io::BufRead;

fn exec(case: &Value, st: &mut runner::Steps, scratch: &str) -> Value {
    match case["suite"].as_str().unwrap() {
        "cont" => container::run(case, st, scratch),
        "store" => store::run(case, st),
        "codec" => codec::run(case, st),
        "robust" => robust::run(case, st, scratch),
        "ftype" => ftype::run(case, st, scratch),
        "export" => export::run(case, st),
        "ratio" => ratio::run(case, st),
        "tag" => tagapi::run(case, st),
        "fault" => fault::run(case, st, scratch),
        "fsys" => fsys::run(case, st, scratch),
        s => panic!("suite {s}"),
    }
}
fn load(p: &str) -> Vec<Value> {
    std::io::BufReader::new(std::fs::File::open(p).unwrap()).lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(&l).unwrap()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => runner::worker(exec, &a[2]),
        // exec CASES OUT SCRATCH [WORKERS]
        Some("exec") => runner::drive(load(&a[2]), &a[3], &a[4], a.get(5).map(|s| s.parse().unwrap()).unwrap_or(8)),
        // gen SUITE N SEED OUT
        Some("gen") => gen::gen(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        // one CASEFILE SCRATCH : run the first case in this process
        Some("one") => { let c = load(&a[2]); let mut st = runner::Steps::new(&c[0], false); if std::env::var("LEXH_LOUD").is_err() { runner::quiet_panics(); } println!("{}", serde_json::to_string_pretty(&exec(&c[0], &mut st, &a[3])).unwrap()); }
        _ => { eprintln!("usage: lexh exec|gen|worker|one"); std::process::exit(2); }
    }
}
