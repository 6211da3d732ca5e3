//! File system calls that fail. The symbols the standard library calls are
//! defined here; a schedule decides which call of the operation under test
//! fails and how. Descriptors below 3 are never touched.
use std::ffi::{c_char, c_int, c_long, c_void};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::Relaxed};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
pub const CALLS: [&str; 5] = ["read", "write", "seek", "size", "open"];
static ON: AtomicBool = AtomicBool::new(false);
static COUNT: [AtomicUsize; 5] = [const { AtomicUsize::new(0) }; 5];
static WHICH: AtomicUsize = AtomicUsize::new(9);
static AT: AtomicI64 = AtomicI64::new(-1);
static HOW: AtomicI64 = AtomicI64::new(0);
static QUOTA: AtomicI64 = AtomicI64::new(-1);
static FIRED: AtomicBool = AtomicBool::new(false);

#[cfg(target_arch = "x86_64")]
const NR: [c_long; 5] = [0, 1, 8, 77, 257];
#[cfg(target_arch = "aarch64")]
const NR: [c_long; 5] = [63, 64, 62, 46, 56];

/// Threads under a schedule: each proceeds to its next file system call only
/// when it is its turn; threads that have ended are passed over.
pub struct Gate { sched: Vec<usize>, pos: usize, done: Vec<bool> }
static GATE: Mutex<Gate> = Mutex::new(Gate { sched: vec![], pos: 0, done: vec![] });
static TURN: Condvar = Condvar::new();
thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }
fn next(g: &mut Gate) {
    for _ in 0..g.sched.len() { g.pos = (g.pos + 1) % g.sched.len(); if !g.done[g.sched[g.pos] - 1] { break; } }
    TURN.notify_all();
}
fn wait(me: usize, first: bool) {
    let mut g = GATE.lock().unwrap();
    if g.sched.is_empty() { return; }
    if !first { next(&mut g); }
    // a thread that waits for a lock of this one cannot take its turn
    while g.sched[g.pos] != me {
        let (h, late) = TURN.wait_timeout(g, std::time::Duration::from_millis(500)).unwrap();
        g = h;
        if late.timed_out() { break; }
    }
}
fn gate() { let me = ME.try_with(|m| m.get()).unwrap_or(0); if me > 0 { wait(me, false); } }
/// Before the threads (numbered from 1) start.
pub fn schedule(sched: Vec<usize>, n: usize) { *GATE.lock().unwrap() = Gate { sched, pos: 0, done: vec![false; n] }; }
/// In a thread: runs f under the schedule.
pub fn as_thread<T>(me: usize, f: impl FnOnce() -> T) -> T {
    struct End(usize);
    impl Drop for End { fn drop(&mut self) { ME.with(|m| m.set(0)); let mut g = GATE.lock().unwrap(); g.done[self.0 - 1] = true; if !g.sched.is_empty() { next(&mut g); } } }
    let _end = End(me);
    wait(me, true);
    ME.with(|m| m.set(me));
    f()
}
static LOG: AtomicBool = AtomicBool::new(false);
static OPENED: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
/// The paths opened for writing while f runs.
pub fn opened<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    OPENED.lock().unwrap().clear();
    LOG.store(true, Relaxed);
    let v = f();
    LOG.store(false, Relaxed);
    (v, std::mem::take(&mut OPENED.lock().unwrap()))
}

/// what is to happen with this call
enum Fate { Normal, Errno(c_int), Short, One }
fn fate(call: usize, fd: c_int) -> Fate {
    gate();
    if !ON.load(Relaxed) || (call != 4 && fd < 3) { return Fate::Normal; }
    let k = COUNT[call].fetch_add(1, Relaxed) as i64;
    if WHICH.load(Relaxed) != call || AT.load(Relaxed) != k { return Fate::Normal; }
    match HOW.load(Relaxed) { 0 => { FIRED.store(true, Relaxed); Fate::Short } -1 => { FIRED.store(true, Relaxed); Fate::One } e => { FIRED.store(true, Relaxed); Fate::Errno(e as c_int) } }
}
unsafe fn fail(e: c_int) { *__errno_location() = e; }

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    match fate(0, fd) {
        Fate::Errno(e) => { fail(e); -1 }
        Fate::Short if n > 1 => syscall(NR[0], fd as c_long, b, n / 2) as isize,
        Fate::One if n > 1 => syscall(NR[0], fd as c_long, b, 1usize) as isize,
        _ => syscall(NR[0], fd as c_long, b, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let q = QUOTA.load(Relaxed);
    let mut n = n;
    if fd > 2 && ON.load(Relaxed) && q >= 0 {
        let at = syscall(NR[2], fd as c_long, 0 as c_long, 1 as c_long) as i64;
        if at >= 0 && at + n as i64 > q {
            FIRED.store(true, Relaxed);
            if at >= q { fail(28); return -1; }
            n = (q - at) as usize;
        }
    }
    match fate(1, fd) {
        Fate::Errno(e) => { fail(e); -1 }
        Fate::Short if n > 1 => syscall(NR[1], fd as c_long, b, n / 2) as isize,
        Fate::One if n > 1 => syscall(NR[1], fd as c_long, b, 1usize) as isize,
        _ => syscall(NR[1], fd as c_long, b, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match fate(2, fd) { Fate::Errno(e) => { fail(e); -1 } _ => syscall(NR[2], fd as c_long, off as c_long, whence as c_long) as i64 }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match fate(3, fd) { Fate::Errno(e) => { fail(e); -1 } _ => syscall(NR[3], fd as c_long, len as c_long) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let fd = match fate(4, -1) { Fate::Errno(e) => { fail(e); -1 } _ => syscall(NR[4], -100 as c_long, path, flags as c_long, mode as c_long) as c_int };
    if fd >= 0 && flags & 0o1103 != 0 && LOG.load(Relaxed) { if let Ok(mut v) = OPENED.lock() { v.push(std::ffi::CStr::from_ptr(path).to_bytes().to_vec()); } }
    fd
}

/// Runs f with the k-th call of a kind failing (how: an errno, 0 for half
/// of what was asked for, -1 for a single byte) and files limited to a size; returns whether it did and how many calls
/// of each kind there were.
pub fn under<T>(call: usize, k: i64, how: i64, quota: i64, f: impl FnOnce() -> T) -> (T, bool, [usize; 5]) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ON.store(false, Relaxed); } }
    for c in &COUNT { c.store(0, Relaxed); }
    WHICH.store(call, Relaxed);
    AT.store(k, Relaxed);
    HOW.store(how, Relaxed);
    QUOTA.store(quota, Relaxed);
    FIRED.store(false, Relaxed);
    let _off = Off;
    ON.store(true, Relaxed);
    let v = f();
    ON.store(false, Relaxed);
    let mut n = [0; 5];
    for (i, c) in COUNT.iter().enumerate() { n[i] = c.load(Relaxed); }
    (v, FIRED.load(Relaxed), n)
}
