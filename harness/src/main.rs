//! Conformance harness: executes operation sessions against the real crate and records what it did.
//! usage: conform SESSIONS.ndjson TRACE.ndjson
//! Each input line: {"id":n,"fam":"...","ops":[{"op":...},...]}
//! Each output line: {"id":n,"fam":"...","ev":[{<op fields>,"r":{"t":"ok"|"err"|"partial"|"panic",...}},...]}
mod json;

mod fams;
use json::J;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// counts live bytes, so that what an operation held at its peak can be told
struct Meter;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
fn grow(n: i64) { let l = LIVE.fetch_add(n, Ordering::Relaxed) + n; PEAK.fetch_max(l, Ordering::Relaxed); }
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { grow(l.size() as i64); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { grow(l.size() as i64); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { grow(n as i64 - l.size() as i64); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static METER: Meter = Meter;
/// octets an operation is given
fn given(o: &J) -> i64 {
    if o.has("op") && o.s("op") == "cbig" { return o.i("n") / 256; }
    match o { J::Arr(a) => a.iter().map(given).sum(), J::Obj(_) if o.has("unit") => given(o.get("pre")) + given(o.get("unit")) * o.i("n") + given(o.get("post")), J::Obj(v) => v.iter().map(|x| given(&x.1)).sum(), J::Null => 0, _ => 1 }
}

pub fn last_panic() -> String { LAST.lock().map(|g| g.clone()).unwrap_or_default() }
static CUR: AtomicI64 = AtomicI64::new(-1);
static CUROP: AtomicI64 = AtomicI64::new(-1);
static TICK: AtomicU64 = AtomicU64::new(0);
static LAST: Mutex<String> = Mutex::new(String::new());

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("HARNESS open"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("HARNESS create"));
    let hang_file = format!("{}.hang", args[2]);
    let limit: u64 = std::env::var("CONFORM_OP_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST.lock() { *g = format!("{} at {}", m, l); }
    }));
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::SeqCst);
            if t != last { last = t; since = Instant::now(); continue; }
            if CUR.load(Ordering::SeqCst) >= 0 && since.elapsed() > Duration::from_secs(limit) {
                let _ = std::fs::write(&hang_file, format!("{} {}", CUR.load(Ordering::SeqCst), CUROP.load(Ordering::SeqCst)));
                std::process::exit(77);
            }
        }
    });
    let prog_file = format!("{}.prog", args[2]);
    for line in inp.lines() {
        let line = line.expect("HARNESS read");
        if line.trim().is_empty() { continue; }
        let sess = J::parse(&line);
        let id = sess.i("id");
        let fam = sess.s("fam").to_string();
        CUR.store(id, Ordering::SeqCst);
        let mut ctx = fams::Ctx::new(&fam, &sess);
        let mut evs = vec![];
        let mut size = 0;
        for (k, op) in sess.a("ops").iter().enumerate() {
            CUROP.store(k as i64, Ordering::SeqCst);
            TICK.fetch_add(1, Ordering::SeqCst);
            size += given(op);
            let base = LIVE.load(Ordering::Relaxed);
            PEAK.store(base, Ordering::Relaxed);
            let r = catch_unwind(AssertUnwindSafe(|| ctx.run(op)));
            let held = PEAK.load(Ordering::Relaxed) - base;
            TICK.fetch_add(1, Ordering::SeqCst);
            let (r, stop) = match r {
                Ok(r) => (r, false),
                Err(_) => {
                    let m = LAST.lock().map(|g| g.clone()).unwrap_or_default();
                    if m.contains("HARNESS") { eprintln!("HARNESS error in session {} op {}: {}", id, k, m); std::process::exit(78); }
                    (J::obj().set("t", "panic").set("m", m), true)
                }
            };
            let mut o = op.clone();
            if let J::Obj(ref mut v) = o { v.push(("r".into(), r)); v.push(("kb".into(), J::Int(held / 1024))); v.push(("sz".into(), J::Int(size))); }
            evs.push(o);
            if stop { break; }
        }
        let mut s = String::new();
        J::obj().set("id", id).set("fam", fam.as_str()).set("ev", evs).write(&mut s);
        s.push('\n');
        out.write_all(s.as_bytes()).expect("HARNESS write");
        out.flush().expect("HARNESS flush");
        CUR.store(-1, Ordering::SeqCst);
        let _ = &prog_file;
    }
}
