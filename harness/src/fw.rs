//! Framework: deterministic cases, tagged checks, panic capture, journal, watchdog.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct VxFail(pub String);

thread_local! {
    static LASTPANIC: RefCell<String> = RefCell::new(String::new());
    static TRACE: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static TAGS: Cell<&'static [&'static str]> = Cell::new(&[]);
}
static CASE_START: AtomicU64 = AtomicU64::new(0);
static CASE_TXT: Mutex<String> = Mutex::new(String::new());

pub fn trace(f: impl FnOnce() -> String) {
    TRACE.with(|t| { let mut t = t.borrow_mut(); if t.len() >= 400 { t.remove(0); } t.push(f()); });
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    /// a word with a varied density of ones
    pub fn word(&mut self) -> u64 {
        match self.below(10) {
            0 => 0, 1 => !0, 2 => self.next() & self.next() & self.next(), 3 => self.next() | self.next() | self.next(),
            4 => 1u64 << self.below(64), 5 => !(1u64 << self.below(64)), 6 => { let k = self.below(64); (1u64 << k).wrapping_sub(1) }
            7 => { let k = self.below(64); !((1u64 << k).wrapping_sub(1)) }
            _ => self.next(),
        }
    }
}

pub struct T {
    pub prop: String,
    pub seed: u64,
    pub scale: u64,
    pub deadline: Instant,
    pub journal: Option<String>,
    pub evals: u64,
    pub checks: Cell<u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fail: Option<(String, String)>,
    pub cut: bool,
}

pub type Engine = fn(&T, &[u64]);

impl T {
    pub fn new(prop: &str, seed: u64, scale: u64, deadline: Instant, journal: Option<String>) -> T {
        T { prop: prop.to_string(), seed, scale, deadline, journal, evals: 0, checks: Cell::new(0), distinct: HashSet::new(), samples: vec![], fail: None, cut: false }
    }
    pub fn tagged(&self, tags: &[&str]) -> bool { tags.iter().any(|x| *x == self.prop) }
    /// A fact the listed properties promise.
    pub fn check(&self, tags: &'static [&'static str], ok: bool, msg: impl FnOnce() -> String) {
        self.checks.set(self.checks.get() + 1);
        if !ok && self.tagged(tags) { panic::panic_any(VxFail(msg())); }
    }
    /// From here on, a panic of the library breaks the listed properties.
    pub fn lib(&self, tags: &'static [&'static str]) { TAGS.with(|c| c.set(tags)); }
    /// The call must panic (and the caller then checks nothing changed).
    pub fn must_panic<R>(&self, tags: &'static [&'static str], what: impl FnOnce() -> String, f: impl FnOnce() -> R) {
        self.checks.set(self.checks.get() + 1);
        let r = panic::catch_unwind(AssertUnwindSafe(f));
        if r.is_ok() && self.tagged(tags) { panic::panic_any(VxFail(format!("{} did not panic", what()))); }
    }
    pub fn late(&self) -> bool { Instant::now() >= self.deadline }

    /// Runs one case; returns false when a violation of this property was found (or time is up).
    pub fn case(&mut self, name: &'static str, f: Engine, params: &[u64]) -> bool {
        if self.fail.is_some() { return false; }
        if self.late() { self.cut = true; return false; }
        let txt = || { let mut s = name.to_string(); for p in params { s.push(' '); s.push_str(&p.to_string()); } s };
        self.evals += 1;
        let key = { let mut h = 0xcbf29ce484222325u64; for b in name.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } for p in params { h = (h ^ p).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23); } h };
        if self.distinct.len() < 4_000_000 { self.distinct.insert(key); }
        if self.samples.len() < 5 || (self.evals & (self.evals - 1)) == 0 && self.samples.len() < 24 { let s = txt(); self.samples.push(s); }
        if let Some(msg) = self.run_one(name, f, params) { self.fail = Some((txt(), msg)); return false; }
        true
    }

    pub fn run_one(&mut self, name: &'static str, f: Engine, params: &[u64]) -> Option<String> {
        TRACE.with(|t| t.borrow_mut().clear());
        TAGS.with(|c| c.set(&[]));
        {
            let mut c = CASE_TXT.lock().unwrap();
            c.clear(); c.push_str(name);
            for p in params { c.push(' '); c.push_str(&p.to_string()); }
            if let Some(j) = &self.journal { journal_write(j, &c); }
        }
        CASE_START.store(now_ms(), Ordering::SeqCst);
        let r = panic::catch_unwind(AssertUnwindSafe(|| f(self, params)));
        CASE_START.store(0, Ordering::SeqCst);
        let msg = match r {
            Ok(()) => None,
            Err(p) => match p.downcast::<VxFail>() {
                Ok(v) => Some(v.0),
                Err(_) => {
                    let tags = TAGS.with(|c| c.get());
                    if self.tagged(tags) { Some(format!("unexpected panic: {}", LASTPANIC.with(|l| l.borrow().clone()))) } else { None }
                }
            },
        };
        msg.map(|m| {
            let tr = TRACE.with(|t| t.borrow().join("\n  "));
            if tr.is_empty() { m } else { format!("{}\n history:\n  {}", m, tr) }
        })
    }
}

use std::os::unix::fs::FileExt;
thread_local! { static JF: RefCell<Option<std::fs::File>> = RefCell::new(None); }
fn journal_write(path: &str, s: &str) {
    JF.with(|j| {
        let mut j = j.borrow_mut();
        if j.is_none() { *j = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(path).ok(); }
        if let Some(f) = j.as_ref() { let mut line = s.to_string(); while line.len() < 200 { line.push(' '); } line.push('\n'); let _ = f.write_all_at(line.as_bytes(), 0); }
    });
}

fn now_ms() -> u64 { use std::time::SystemTime; SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_millis() as u64 }

/// Ends the process with code 3 when one case runs for longer than `limit`.
pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && now_ms().saturating_sub(s) > limit.as_millis() as u64 {
            eprintln!("vxh: case does not end: {}", CASE_TXT.lock().map(|c| c.clone()).unwrap_or_default());
            std::process::exit(3);
        }
    });
}

pub fn quiet_panics() {
    panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LASTPANIC.with(|l| *l.borrow_mut() = m + &loc);
    }));
}

// ---- allocation accounting (of the current thread) --------------------------
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Counting;
thread_local! {
    static LIVE: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn add(n: usize) { let _ = LIVE.try_with(|c| c.set(c.get().wrapping_add(n as u64))); let _ = CALLS.try_with(|c| c.set(c.get() + 1)); }
fn sub(n: usize) { let _ = LIVE.try_with(|c| c.set(c.get().wrapping_sub(n as u64))); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 3 << 30 { return std::ptr::null_mut(); }
        add(l.size()); System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { sub(l.size()); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 3 << 30 { return std::ptr::null_mut(); }
        add(l.size()); System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 3 << 30 { return std::ptr::null_mut(); }
        add(n); sub(l.size()); System.realloc(p, l, n)
    }
}
pub fn live() -> u64 { LIVE.with(|c| c.get()) }
pub fn calls() -> u64 { CALLS.with(|c| c.get()) }
