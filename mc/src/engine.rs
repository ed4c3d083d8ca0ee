//! The explorer: a check is a list of finite `Space`s, each a total function from an index in
//! 0..size to one execution of the real code compared with the reference model.  Every index of
//! every space is visited exactly once (8 worker threads), so a run that is not cut short is an
//! exhaustive enumeration of the space.  Indices are the replayable schedules.
//!
//! Three processes take part: a supervisor (this binary as started), a worker process which does the
//! exploration, and - only after a crash or a hang - a replay process which re-executes one case.

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use templito::func_man::BasicFuncs;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable identity of what failed (input, call or history); matched with KNOWN_FINDINGS
    pub key: String,
    pub detail: String,
}
pub type Res = Result<(), Viol>;

pub fn viol(key: impl Into<String>, detail: impl Into<String>) -> Res {
    Err(Viol { key: key.into(), detail: detail.into() })
}

/// Per-thread exploration context.
pub struct Ctx {
    pub fm: BasicFuncs,
    pub thread: usize,
    pub verbose: bool,
    pub scratch: std::path::PathBuf,
    states: HashSet<u64>,
    trans: u64,
    traces: u64,
    nontrivial: u64,
    samples: Vec<(u64, String)>,
    cur: u64,
}

impl Ctx {
    pub fn new(thread: usize, scratch: std::path::PathBuf) -> Self {
        Ctx {
            fm: crate::common::probe_funcs(),
            thread,
            verbose: false,
            scratch,
            states: HashSet::new(),
            trans: 0,
            traces: 0,
            nontrivial: 0,
            samples: Vec::new(),
            cur: 0,
        }
    }
    /// a distinct model state / observable outcome, by canonical hash
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < 3_000_000 {
            self.states.insert(h64(t));
        }
    }
    pub fn state_h(&mut self, h: u64) {
        if self.states.len() < 3_000_000 {
            self.states.insert(h);
        }
    }
    /// model steps taken
    pub fn trans(&mut self, n: u64) {
        self.trans += n;
    }
    /// one complete execution of the real code compared with the model
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("  case: {}", f());
            return;
        }
        if self.samples.len() < 2 {
            let c = self.cur;
            self.samples.push((c, f()));
        }
    }
}

pub fn h64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E3779B97F4A7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static IN_REAL: RefCell<u32> = RefCell::new(0);
}

/// Outcome of one call into the code under test.
#[derive(Debug, Clone, PartialEq)]
pub enum Real<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Real<T> {
    pub fn is_panic(&self) -> bool {
        matches!(self, Real::Panic(_))
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Real::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Real<U> {
        match self {
            Real::Ok(t) => Real::Ok(f(t)),
            Real::Err(e) => Real::Err(e),
            Real::Panic(e) => Real::Panic(e),
        }
    }
}

/// Call into the code under test; a panic there is an outcome, not a harness failure.
pub fn real<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Real<T> {
    IN_REAL.with(|r| *r.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(|| match f() {
        Ok(v) => Ok(v),
        Err(e) => Err(e.to_string()),
    }));
    IN_REAL.with(|r| *r.borrow_mut() -= 1);
    match r {
        Ok(Ok(v)) => Real::Ok(v),
        Ok(Err(e)) => Real::Err(e),
        Err(_) => Real::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        let inside = IN_REAL.with(|r| *r.borrow()) > 0;
        if !inside {
            eprintln!("HARNESS PANIC: {}", m);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub struct Space {
    pub name: String,
    pub bounds: String,
    pub size: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>,
    /// keep this space on a single thread (process-wide effects)
    pub serial: bool,
}

impl Space {
    pub fn new(
        name: impl Into<String>,
        bounds: impl Into<String>,
        size: u64,
        run: impl Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static,
    ) -> Self {
        Space { name: name.into(), bounds: bounds.into(), size, run: Box::new(run), serial: false }
    }
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

pub struct Slot {
    pub space: AtomicU64, // space index + 1, 0 = idle
    pub case: AtomicU64,
    pub tick: AtomicU64,
}

pub const NTHREADS: usize = 8;

/// Progress slots in a file mapping, so that they survive the death of the worker.
pub fn map_slots(path: &std::path::Path) -> &'static [Slot] {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    let bytes = std::mem::size_of::<Slot>() * (NTHREADS + 1);
    f.set_len(bytes as u64).expect("slot len");
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED, "mmap");
        std::slice::from_raw_parts(p as *const Slot, NTHREADS + 1)
    }
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub states: u64,
    pub trans: u64,
    pub traces: u64,
    pub nontrivial: u64,
    pub cases: u64,
    pub exhausted: bool,
    pub samples: Vec<String>,
    pub spaces: Vec<(String, String, u64, u64)>, // name, bounds, size, explored
    pub viols: Vec<(usize, u64, Viol)>,
    pub known: Vec<(usize, u64, Viol)>,
}

pub const HANG_S: u64 = 25;

pub fn explore(spaces: Arc<Vec<Space>>, slots: &'static [Slot], known: &[String], cap: Duration, scratch: &std::path::Path) -> Report {
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicBool::new(false));
    // hang watchdog
    {
        let done = done.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, Instant)> = slots.iter().map(|s| (s.tick.load(Relaxed), Instant::now())).collect();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                if done.load(Relaxed) {
                    return;
                }
                for (i, s) in slots.iter().enumerate() {
                    let t = s.tick.load(Relaxed);
                    if t != last[i].0 || s.space.load(Relaxed) == 0 {
                        last[i] = (t, Instant::now());
                    } else if last[i].1.elapsed().as_secs() >= HANG_S {
                        eprintln!("watchdog: no progress in space #{} case {}", s.space.load(Relaxed), s.case.load(Relaxed));
                        // leave only the stuck slot marked
                        for (j, o) in slots.iter().enumerate() {
                            if j != i {
                                o.space.store(0, SeqCst);
                            }
                        }
                        unsafe { libc::_exit(77) }
                    }
                }
            }
        });
    }
    let mut rep = Report::default();
    rep.exhausted = true;
    let all_states: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let known: Arc<Vec<String>> = Arc::new(known.to_vec());
    for si in 0..spaces.len() {
        let size = spaces[si].size;
        let next = Arc::new(AtomicU64::new(0));
        let explored = Arc::new(AtomicU64::new(0));
        let found: Arc<Mutex<Vec<(u64, Viol, bool)>>> = Arc::new(Mutex::new(Vec::new()));
        let stats: Arc<Mutex<Vec<(u64, u64, u64, Vec<(u64, String)>)>>> = Arc::new(Mutex::new(vec![]));
        let n = if spaces[si].serial || size < 16 { 1 } else { NTHREADS };
        let chunk = (size / (n as u64 * 64)).clamp(1, 512);
        let mut hs = vec![];
        for th in 0..n {
            let (spaces, next, explored, found, stats, stop, all_states, known) = (
                spaces.clone(), next.clone(), explored.clone(), found.clone(), stats.clone(), stop.clone(), all_states.clone(), known.clone(),
            );
            let scratch = scratch.join(format!("t{}", th));
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ctx = Ctx::new(th, scratch);
                    let sp = &spaces[si];
                    let slot = &slots[th];
                    let mut my = 0u64;
                    'o: loop {
                        if stop.load(Relaxed) || start.elapsed() > cap {
                            break;
                        }
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= size {
                            break;
                        }
                        for i in a..(a + chunk).min(size) {
                            slot.case.store(i, Relaxed);
                            slot.space.store(si as u64 + 1, Relaxed);
                            slot.tick.fetch_add(1, Relaxed);
                            ctx.cur = i;
                            my += 1;
                            if let Err(v) = (sp.run)(i, &mut ctx) {
                                let is_known = known.iter().any(|k| *k == v.key);
                                found.lock().unwrap().push((i, v, is_known));
                                if !is_known {
                                    stop.store(true, Relaxed);
                                    break 'o;
                                }
                            }
                        }
                    }
                    slot.space.store(0, Relaxed);
                    explored.fetch_add(my, Relaxed);
                    all_states.lock().unwrap().extend(ctx.states.iter());
                    stats.lock().unwrap().push((ctx.trans, ctx.traces, ctx.nontrivial, ctx.samples));
                })
                .expect("spawn");
            hs.push(h);
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness thread panicked in space {}", spaces[si].name);
                std::process::exit(3);
            }
        }
        let ex = explored.load(Relaxed);
        rep.cases += ex;
        if ex < size {
            rep.exhausted = false;
        }
        let mut sm = vec![];
        for (a, b, c, s) in stats.lock().unwrap().drain(..) {
            rep.trans += a;
            rep.traces += b;
            rep.nontrivial += c;
            sm.extend(s);
        }
        sm.sort();
        let k = sm.len();
        for j in [0, k / 2, k.saturating_sub(1)] {
            if j < k && rep.samples.len() < 60 {
                let s = format!("[{}#{}] {}", spaces[si].name, sm[j].0, sm[j].1);
                if !rep.samples.contains(&s) {
                    rep.samples.push(s);
                }
            }
        }
        rep.spaces.push((spaces[si].name.clone(), spaces[si].bounds.clone(), size, ex));
        let mut f = found.lock().unwrap().drain(..).collect::<Vec<_>>();
        f.sort_by_key(|x| x.0);
        for (i, v, kn) in f {
            if kn {
                rep.known.push((si, i, v));
            } else {
                rep.viols.push((si, i, v));
            }
        }
        if stop.load(Relaxed) || start.elapsed() > cap {
            if si + 1 < spaces.len() {
                rep.exhausted = false;
                for sp in &spaces[si + 1..] {
                    rep.spaces.push((sp.name.clone(), sp.bounds.clone(), sp.size, 0));
                }
            }
            break;
        }
    }
    rep.states = all_states.lock().unwrap().len() as u64;
    done.store(true, Relaxed);
    rep
}

// ------------------------------------------------------------ enumeration helpers

/// Mixed-radix decoder: `let mut d = Digits(i); let a = d.take(n); ...`
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.take(v.len() as u64) as usize]
    }
}

/// number of sequences of length 0..=max over k symbols
pub fn seqs(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}
/// the i-th sequence (shortest first)
pub fn seq_at(k: u64, i: u64) -> Vec<usize> {
    let mut l = 0u32;
    let mut i = i;
    loop {
        let c = k.pow(l);
        if i < c {
            break;
        }
        i -= c;
        l += 1;
    }
    let mut r = vec![];
    for _ in 0..l {
        r.push((i % k) as usize);
        i /= k;
    }
    r.reverse();
    r
}
