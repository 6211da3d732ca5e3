//! Runs cases in worker processes so that panics, hangs, aborts and memory
//! exhaustion of the code under test become observations.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| { let f = l.file(); let f = f.rsplit("/src/").next().unwrap_or(f); format!("{}:{}", f, l.line()) }).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}
/// Where we are inside a case: (step, via). Printed before every risky call.
pub struct Steps { pub n: usize, pub stop: Vec<(i64, String)>, pub live: bool }
pub enum Out<T> { Val(T), Panic(String), Crash(String) }
impl Steps {
    pub fn new(case: &Value, live: bool) -> Steps {
        let stop = case.get("stop").and_then(|v| v.as_array()).map(|a| a.iter().map(|e| (e[0].as_i64().unwrap(), e[1].as_str().unwrap().to_string())).collect()).unwrap_or_default();
        Steps { n: 0, stop, live }
    }
    /// Runs one call into the library.
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Out<T> {
        let me = self.n;
        self.n += 1;
        if let Some(c) = self.stop.iter().find(|c| c.0 == me as i64) { return Out::Crash(c.1.clone()); }
        if self.live { println!("@{me}"); let _ = std::io::stdout().flush(); }
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(v) => Out::Val(v),
            Err(_) => Out::Panic(PANIC.with(|p| p.borrow().clone())),
        }
    }
    /// Like `res`, with the peak of memory used by the call in bytes.
    pub fn heavy<T>(&mut self, f: impl FnOnce() -> Result<T, std::io::Error>) -> (String, Option<T>, usize) {
        let base = NOW.load(Ordering::Relaxed);
        PEAK.store(base, Ordering::Relaxed);
        let (r, v) = self.res(f);
        (r, v, PEAK.load(Ordering::Relaxed).saturating_sub(base))
    }
    /// Same, reduced to a result string: "ok", "err:..", "panic:..", "hang", "abort".
    pub fn res<T>(&mut self, f: impl FnOnce() -> Result<T, std::io::Error>) -> (String, Option<T>) {
        match self.call(f) {
            Out::Val(Ok(v)) => ("ok".into(), Some(v)),
            Out::Val(Err(e)) => { let s: String = e.to_string().chars().take(80).collect(); (format!("err:{s}"), None) }
            Out::Panic(l) => (format!("panic:{l}"), None),
            Out::Crash(c) => (c, None),
        }
    }
}

/// Counts the memory in use so that calls can be charged with their peak.
pub struct Counting;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { grown(l.size()); unsafe { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { grown(l.size()); unsafe { System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), Ordering::Relaxed); unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { grown(n); NOW.fetch_sub(l.size(), Ordering::Relaxed); unsafe { System.realloc(p, l, n) } }
}
fn grown(n: usize) { let v = NOW.fetch_add(n, Ordering::Relaxed) + n; PEAK.fetch_max(v, Ordering::Relaxed); }

pub fn worker(exec: fn(&Value, &mut Steps, &str) -> Value, scratch: &str) {
    quiet_panics();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { continue; }
        let case: Value = serde_json::from_str(&line).unwrap();
        let mut st = Steps::new(&case, true);
        let v = exec(&case, &mut st, scratch);
        println!("{}", serde_json::to_string(&v).unwrap());
        let _ = std::io::stdout().flush();
    }
}
struct W { child: Child, rx: mpsc::Receiver<String> }
fn spawn(scratch: &str) -> W {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new("sh").arg("-c").arg("ulimit -v 4000000; ulimit -c 0; exec \"$0\" worker \"$1\"").arg(exe).arg(scratch)
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { for l in BufReader::new(out).lines() { match l { Ok(l) => { if tx.send(l).is_err() { break } } Err(_) => break } } });
    W { child, rx }
}
/// Calls that never ended so far. The first ones are given plenty of time, as
/// the machine may be busy; when hanging is common, waiting is of no use.
static HANGS: AtomicUsize = AtomicUsize::new(0);
/// Runs one case to completion, restarting the worker when it dies.
fn run_one(w: &mut W, scratch: &str, case: &Value, timeout: Duration) -> Value {
    let mut case = case.clone();
    for _ in 0..40 {
        let line = serde_json::to_string(&case).unwrap() + "\n";
        let mut last = -1i64;
        let mut why = "abort";
        if w.child.stdin.as_mut().unwrap().write_all(line.as_bytes()).and_then(|_| w.child.stdin.as_mut().unwrap().flush()).is_ok() {
            loop {
                match w.rx.recv_timeout(if HANGS.load(Ordering::Relaxed) < 8 { timeout } else { timeout / 5 }) {
                    Ok(l) => if let Some(n) = l.strip_prefix('@') { last = n.parse().unwrap() } else { return serde_json::from_str(&l).unwrap() },
                    Err(mpsc::RecvTimeoutError::Timeout) => { HANGS.fetch_add(1, Ordering::Relaxed); why = "hang"; break }
                    Err(_) => break,
                }
            }
        }
        let _ = w.child.kill();
        let _ = w.child.wait();
        *w = spawn(scratch);
        if case.get("stop").is_none() { case["stop"] = json!([]); }
        case["stop"].as_array_mut().unwrap().push(json!([last, why]));
    }
    json!({"id": case["id"], "harness_failure": true, "case": case})
}
pub fn drive(cases: Vec<Value>, out: &str, scratch: &str, workers: usize) {
    let timeout = Duration::from_secs(std::env::var("LEXH_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(20));
    let n = cases.len();
    let cases = std::sync::Arc::new(cases);
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let results = std::sync::Arc::new(std::sync::Mutex::new(vec![String::new(); n]));
    let mut hs = vec![];
    for k in 0..workers {
        let (cases, next, results) = (cases.clone(), next.clone(), results.clone());
        let dir = format!("{scratch}/w{k}");
        std::fs::create_dir_all(&dir).unwrap();
        hs.push(std::thread::spawn(move || {
            let mut w = spawn(&dir);
            loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n { break; }
                let v = run_one(&mut w, &dir, &cases[i], timeout);
                results.lock().unwrap()[i] = serde_json::to_string(&v).unwrap();
            }
            drop(w.child.stdin.take());
            let _ = w.child.wait();
        }));
    }
    for h in hs { h.join().unwrap(); }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for r in results.lock().unwrap().iter() { writeln!(f, "{r}").unwrap(); }
}
