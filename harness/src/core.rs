//! Run control: engines, work units, violations, evidence counters, crash and hang detection.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type UnitFn = Box<dyn Fn(&mut Rec) + Send + Sync>;

/// One deterministic work unit: a bounded, completely enumerated piece of an engine's space.
pub struct Unit {
    pub id: String,
    pub f: UnitFn,
}

pub fn unit(id: impl Into<String>, f: impl Fn(&mut Rec) + Send + Sync + 'static) -> Unit {
    Unit { id: id.into(), f: Box::new(f) }
}

pub struct Engine {
    pub name: &'static str,
    /// Properties the monitors of this engine decide.
    pub tags: &'static [&'static str],
    pub units: fn(Tier) -> Vec<Unit>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    pub engine: String,
    pub unit: String,
    pub detail: String,
}

/// Recorder handed to a unit.
pub struct Rec {
    pub engine: &'static str,
    pub tags: &'static [&'static str],
    pub unit: String,
    pub target: String,
    pub tier: Tier,
    pub verbose: bool,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub slot: usize,
    hits: usize,
}

pub const MAX_VIOLS_PER_UNIT: usize = 3;

impl Rec {
    /// A monitor failed: `props` are the properties this breaks.
    pub fn fail(&mut self, props: &[&str], detail: impl FnOnce() -> String) {
        if !props.iter().any(|p| *p == self.target) {
            return;
        }
        self.hits += 1;
        if self.hits > MAX_VIOLS_PER_UNIT {
            return;
        }
        let detail = detail();
        self.viols.push(Viol {
            prop: self.target.clone(),
            engine: self.engine.to_string(),
            unit: self.unit.clone(),
            detail,
        });
    }
    pub fn check(&mut self, ok: bool, props: &[&str], detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(props, detail);
        }
        ok
    }
    /// Enough violations of the target in this unit (or anywhere): stop early.
    pub fn stop(&self) -> bool {
        self.hits >= MAX_VIOLS_PER_UNIT || STOP.load(Relaxed)
    }
    #[inline]
    pub fn tick(&mut self) {
        HEART[self.slot].fetch_add(1, Relaxed);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// Runs one case; a panic in the code under test breaks every property of this engine (and C23).
    pub fn guard<R>(&mut self, detail: impl FnOnce() -> String, f: impl FnOnce(&mut Rec) -> R) -> Option<R> {
        self.tick();
        let res = catch_unwind(AssertUnwindSafe(|| f(self)));
        match res {
            Ok(r) => {
                if crate::alloc::empty_request() && self.target == "C23" {
                    self.fail(&["C23"], || format!("a request for no memory at all, which the allocator must not get: {}", detail()));
                }
                Some(r)
            }
            Err(p) => {
                crate::oracle::clear();
                crate::clock::clear();
                let msg = panic_text(&p);
                if msg.starts_with("HARNESS") {
                    std::panic::resume_unwind(p);
                }
                let tags = self.tags;
                let loc = LAST_PANIC.with(|l| l.borrow().clone());
                let target = self.target.clone();
                if tags.iter().any(|t| *t == target) || target == "C23" {
                    self.fail(&[&target.clone()], || format!("the code under test panicked: {msg} [{loc}] in case {}", detail()));
                }
                None
            }
        }
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub const SLOTS: usize = 64;
static STOP: AtomicBool = AtomicBool::new(false);
static HEART: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static BUSY: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(usize::MAX) }; SLOTS];

// --- crash reporting -------------------------------------------------------------------------
const NAMELEN: usize = 200;
static mut NAMES: [[u8; NAMELEN]; SLOTS] = [[0; NAMELEN]; SLOTS];
static CRASH_FD: AtomicUsize = AtomicUsize::new(usize::MAX);
thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

extern "C" fn on_crash(sig: i32) {
    unsafe {
        let fd = CRASH_FD.load(Relaxed) as i32;
        let slot = SLOT.with(|s| s.get());
        let name = &raw const NAMES[slot];
        let mut buf = [0u8; NAMELEN + 8];
        buf[0] = b'0' + (sig / 10) as u8;
        buf[1] = b'0' + (sig % 10) as u8;
        buf[2] = b' ';
        let mut n = 3;
        for i in 0..NAMELEN {
            let c = (*name)[i];
            if c == 0 {
                break;
            }
            buf[n] = c;
            n += 1;
        }
        buf[n] = b'\n';
        libc::write(fd, buf.as_ptr() as *const _, n + 1);
        libc::_exit(86);
    }
}

pub fn install_crash_handlers(crash_file: &str) {
    use std::os::fd::IntoRawFd;
    let f = std::fs::File::create(crash_file).expect("HARNESS crash file");
    CRASH_FD.store(f.into_raw_fd() as usize, Relaxed);
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

pub struct Outcome {
    pub viols: Vec<Viol>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub per_engine: Vec<(String, usize, u64, u64, u64, f64)>,
    pub harness_error: Option<String>,
    /// Units that were not begun, because the check's time was over.
    pub skipped: Vec<String>,
}

/// Runs all units of `engines` for property `target` on all cores.
pub fn run_units(engines: &[&'static Engine], target: &str, tier: Tier, only: Option<(&str, &str)>, verbose: bool) -> Outcome {
    let mut work: Vec<(usize, Unit)> = Vec::new();
    let mut place: Vec<f64> = vec![];
    for (ei, e) in engines.iter().enumerate() {
        if let Some((en, _)) = only {
            if en != e.name {
                continue;
            }
        }
        // Safety looks at every engine; only its own ones go deeper in the thorough tier.
        let t = if target == "C23" && e.name != "safety" && e.name != "drun" { Tier::Quick } else { tier };
        let stride = match (target, tier, e.name) {
            ("C23", Tier::Quick, "population") => 12,
            ("C23", Tier::Quick, "decomp") => 6,
            ("C23", Tier::Quick, "ls" | "eval") => 4,
            ("C23", Tier::Quick, "moves") => 3,
            ("C23", Tier::Quick, "matrix") => 2,
            ("C23", Tier::Quick, "ga" | "independent" | "progress" | "pipeline") => 3,
            _ => 1,
        };
        let stride = if only.is_some() { 1 } else { stride };
        let first = work.len();
        for u in (e.units)(t).into_iter().step_by(stride) {
            if let Some((_, un)) = only {
                if un != u.id {
                    continue;
                }
            }
            work.push((ei, u));
        }
        let n = work.len() - first;
        place.extend((0..n).map(|i| (i as f64 + 0.5) / n as f64));
    }
    // Every engine gets its share of the time.
    let mut order: Vec<usize> = (0..work.len()).collect();
    order.sort_by(|&a, &b| place[a].partial_cmp(&place[b]).unwrap().then(a.cmp(&b)));
    let begun = Instant::now();
    let budget = Duration::from_secs(std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 600 } else { 720 }));
    std::panic::set_hook(Box::new(move |info| {
        let s = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let bt = if std::env::var_os("MC_BT").is_some() { format!("{}", std::backtrace::Backtrace::force_capture()) } else { String::new() };
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("{s}{bt}"));
    }));
    let next = AtomicUsize::new(0);
    let total = work.len();
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16).min(total.max(1));
    let out = Mutex::new(Outcome { viols: vec![], states: 0, transitions: 0, traces: 0, samples: vec![], per_engine: engines.iter().map(|e| (e.name.to_string(), 0, 0, 0, 0, 0.0)).collect(), harness_error: None, skipped: vec![] });
    let done = AtomicBool::new(false);
    let hang = Mutex::new(None::<String>);
    std::thread::scope(|sc| {
        // Watchdog: a case that makes no progress for this long hangs.
        let limit = Duration::from_secs(std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(150));
        let (work_r, done_r, out_r, hang_r) = (&work, &done, &out, &hang);
        sc.spawn(move || {
            let mut last: Vec<(u64, Instant)> = (0..SLOTS).map(|_| (0, Instant::now())).collect();
            while !done_r.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for s in 0..nthreads {
                    let b = BUSY[s].load(Relaxed);
                    let h = HEART[s].load(Relaxed);
                    if b == usize::MAX || h != last[s].0 {
                        last[s] = (h, Instant::now());
                    } else if last[s].1.elapsed() > limit {
                        let (ei, u) = &work_r[b];
                        let _ = out_r;
                        *hang_r.lock().unwrap() = Some(format!("{}/{}", ei, u.id));
                        // The thread cannot be stopped: report through the crash file and leave.
                        SLOT.with(|c| c.set(s));
                        on_crash(99);
                    }
                }
            }
        });
        let mut hs = vec![];
        for slot in 0..nthreads {
            let (next, work, out, order) = (&next, &work, &out, &order);
            let target = target.to_string();
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                SLOT.with(|s| s.set(slot));
                loop {
                    if STOP.load(Relaxed) {
                        break;
                    }
                    let i = next.fetch_add(1, SeqCst);
                    if i >= work.len() {
                        break;
                    }
                    let i = order[i];
                    let (ei, u) = &work[i];
                    let e = engines[*ei];
                    if only.is_none() && begun.elapsed() > budget {
                        out.lock().unwrap().skipped.push(format!("{}|{}", e.name, u.id));
                        continue;
                    }
                    unsafe {
                        let nm = format!("{}|{}", e.name, u.id);
                        let p = &raw mut NAMES[slot];
                        (*p) = [0; NAMELEN];
                        for (k, b) in nm.bytes().take(NAMELEN - 1).enumerate() {
                            (*p)[k] = b;
                        }
                    }
                    BUSY[slot].store(i, SeqCst);
                    HEART[slot].fetch_add(1, SeqCst);
                    let t0 = crate::clock::real_now_ns();
                    let mut rec = Rec { engine: e.name, tags: e.tags, unit: u.id.clone(), target: target.clone(), tier, verbose, states: 0, transitions: 0, traces: 0, samples: vec![], viols: vec![], slot, hits: 0 };
                    let r = catch_unwind(AssertUnwindSafe(|| (u.f)(&mut rec)));
                    crate::oracle::clear();
                    crate::clock::clear();
                    BUSY[slot].store(usize::MAX, SeqCst);
                    let dt = (crate::clock::real_now_ns() - t0) as f64 / 1e9;
                    if let Err(p) = r {
                        let msg = panic_text(&p);
                        let loc = LAST_PANIC.with(|l| l.borrow().clone());
                        if msg.starts_with("HARNESS") || loc.contains("harness/src") || loc.starts_with("src/") {
                            out.lock().unwrap().harness_error.get_or_insert(format!("{}|{}: {msg} [{loc}]", e.name, u.id));
                            STOP.store(true, SeqCst);
                        } else if e.tags.iter().any(|t| *t == target) || target == "C23" {
                            let d = format!("the code under test panicked: {msg} [{loc}]");
                            rec.fail(&[&target.clone()], || d);
                        }
                    }
                    if verbose || std::env::var_os("MC_TIMES").is_some() {
                        eprintln!("unit {}|{} {:.2}s states={} trans={} traces={} viols={}", e.name, u.id, dt, rec.states, rec.transitions, rec.traces, rec.viols.len());
                    }
                    let mut o = out.lock().unwrap();
                    o.states += rec.states;
                    o.transitions += rec.transitions;
                    o.traces += rec.traces;
                    let pe = &mut o.per_engine[*ei];
                    pe.1 += 1;
                    pe.2 += rec.states;
                    pe.3 += rec.transitions;
                    pe.4 += rec.traces;
                    pe.5 += dt;
                    let pe1 = pe.1;
                    if pe1 <= 2 {
                        for s in rec.samples {
                            o.samples.push(format!("{}|{}: {}", e.name, u.id, s));
                        }
                    }
                    if !rec.viols.is_empty() {
                        o.viols.extend(rec.viols);
                        if o.viols.len() >= 8 {
                            STOP.store(true, SeqCst);
                        }
                    }
                }
            }).unwrap());
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, SeqCst);
    });
    out.into_inner().unwrap()
}
