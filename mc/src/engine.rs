//! Bounded-exhaustive exploration engine: deterministic cases, 8 worker threads, panic / hang /
//! runaway-allocation detection, evidence and replay files.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub bound: fn(Tier) -> String,
    pub cases: fn(Tier) -> Vec<String>,
    pub run: fn(&str, Tier, &mut Cov) -> R,
}

/// Everything counted during a run.
#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    slot: usize,
    pub focus: Option<String>,
}

impl Cov {
    /// Announce the sub-case about to be explored (for hang and abort reports).
    pub fn tick(&mut self, desc: impl FnOnce() -> String) {
        self.evaluations += 1;
        let d = desc();
        if self.samples.len() < 3 || (self.samples.len() < 6 && self.evaluations % 997 == 0) {
            self.samples.push(d.clone());
        }
        let s = &slots()[self.slot];
        *s.desc.lock().unwrap() = d;
        s.stamp.store(now_ms(), SeqCst);
    }
    /// Keep the hang detector quiet inside a long but progressing sub-case.
    pub fn alive(&self) {
        slots()[self.slot].stamp.store(now_ms(), SeqCst);
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn outcome(&mut self, o: &str) {
        if let Some(n) = self.outcomes.get_mut(o) {
            *n += 1;
        } else {
            self.outcomes.insert(o.to_string(), 1);
        }
    }
    fn merge(&mut self, o: Cov) {
        self.evaluations += o.evaluations;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.states.extend(o.states);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
    }
}

struct Slot {
    desc: Mutex<String>,
    case: Mutex<String>,
    stamp: AtomicU64, // 0: idle
}
const NSLOTS: usize = 64;
fn slots() -> &'static Vec<Slot> {
    static S: OnceLock<Vec<Slot>> = OnceLock::new();
    S.get_or_init(|| {
        (0..NSLOTS)
            .map(|_| Slot {
                desc: Mutex::new(String::new()),
                case: Mutex::new(String::new()),
                stamp: AtomicU64::new(0),
            })
            .collect()
    })
}
fn start() -> Instant {
    static S: OnceLock<Instant> = OnceLock::new();
    *S.get_or_init(Instant::now)
}
fn now_ms() -> u64 {
    start().elapsed().as_millis() as u64 + 1
}

thread_local! {
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// A single allocation this large is never legitimate here: it fails, so an unbounded stream ends in
/// an out-of-memory error or an abort instead of taking the machine down.
const MAX_ALLOC: usize = 512 << 20;
pub struct Capped;
unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ALLOC {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ALLOC {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX_ALLOC {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

struct Run {
    id: &'static str,
    level: &'static str,
    rule: &'static str,
    bound: String,
    tier: Tier,
    ncases: usize,
}
static RUN: OnceLock<Run> = OnceLock::new();
static DONE: AtomicBool = AtomicBool::new(false);
static REPLAYING: AtomicBool = AtomicBool::new(false);

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn write_evidence(cov: &Cov, violations: usize) {
    let run = RUN.get().unwrap();
    if REPLAYING.load(SeqCst) {
        return;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let samples: Vec<String> = cov.samples.iter().map(|s| format!("\"{}\"", esc(&s.chars().take(600).collect::<String>()))).collect();
    let outcomes: Vec<String> = cov.outcomes.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    let counts = match run.level {
        "model_checking" => format!(
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}",
            cov.states.len(), cov.transitions, cov.traces.max(cov.evaluations)
        ),
        _ => format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"operations\": {}",
            cov.evaluations, cov.states.len(), cov.transitions
        ),
    };
    let text = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  {},\n  \"rule\": \"{}\",\n  \"bound\": \"{}\",\n  \"case_groups\": {},\n  \"outcomes\": {{{}}},\n  \"exhaustive\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"every execution runs the real code built from /repo's working tree; model states are the real image bytes\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        run.id, run.tier.name(), seed, run.level, counts, esc(run.rule), esc(&run.bound), run.ncases,
        outcomes.join(", "), violations == 0, samples.join(", "),
        start().elapsed().as_secs_f64(), violations
    );
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, run.id), text);
}

fn report(case: &str, detail: &str, cov: Option<&Cov>) -> ! {
    if DONE.swap(true, SeqCst) {
        // Somebody else is reporting; wait for the exit.
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let run = RUN.get().unwrap();
    let dir = format!("{}/replay", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.txt", dir, run.id, run.tier.name());
    if !REPLAYING.load(SeqCst) {
        let _ = std::fs::write(&path, format!("property={}\ntier={}\ncase={}\n--- detail ---\n{}\n", run.id, run.tier.name(), case, detail));
    }
    let empty = Cov::default();
    write_evidence(cov.unwrap_or(&empty), 1);
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "VIOLATION property={} replay={}", run.id, path);
    let _ = writeln!(out, "case: {}\n{}", case, detail);
    let _ = out.flush();
    unsafe { libc::_exit(1) }
}

extern "C" fn on_abort(sig: libc::c_int) {
    let i = MY_SLOT.with(|s| s.get());
    if i >= NSLOTS {
        unsafe { libc::_exit(70) }
    }
    let s = &slots()[i];
    let d = s.desc.try_lock().map(|d| d.clone()).unwrap_or_default();
    let c = s.case.try_lock().map(|d| d.clone()).unwrap_or_default();
    let what = PANIC_MSG.with(|p| p.try_borrow().map(|p| p.clone()).unwrap_or_default());
    report(&c, &format!("the code under test aborted the process (signal {}; {}) in: {}", sig, what, d), None)
}

fn install() {
    start();
    slots();
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
        if MY_SLOT.with(|s| s.get()) >= NSLOTS {
            eprintln!("engine panic at {}: {}", loc, msg);
        }
    }));
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_abort as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGABRT, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
    }
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

/// Run one group of cases, turning panics into violations.
fn run_case(p: &Prop, case: &str, tier: Tier, cov: &mut Cov) -> R {
    let slot = cov.slot;
    *slots()[slot].case.lock().unwrap() = case.to_string();
    *slots()[slot].desc.lock().unwrap() = case.to_string();
    slots()[slot].stamp.store(now_ms(), SeqCst);
    let r = panic::catch_unwind(AssertUnwindSafe(|| (p.run)(case, tier, cov)));
    slots()[slot].stamp.store(0, SeqCst);
    match r {
        Ok(r) => r,
        Err(_) => {
            let d = match slots()[slot].desc.lock() {
                Ok(d) => d.clone(),
                Err(e) => e.into_inner().clone(),
            };
            Err(format!("{} in: {}", last_panic(), d))
        }
    }
}

fn hang_ms() -> u64 {
    std::env::var("MC_HANG_S").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(30) * 1000
}

fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let n = now_ms();
        for s in slots() {
            let t = s.stamp.load(SeqCst);
            if t != 0 && n > t + hang_ms() {
                let d = s.desc.lock().unwrap().clone();
                let c = s.case.lock().unwrap().clone();
                report(&c, &format!("no progress for {} s (endless work) in: {}", hang_ms() / 1000, d), None);
            }
        }
    });
}

pub fn run(p: &'static Prop, tier: Tier) -> i32 {
    install();
    let cases = (p.cases)(tier);
    let _ = RUN.set(Run { id: p.id, level: p.level, rule: p.rule, bound: (p.bound)(tier), tier, ncases: cases.len() });
    watchdog();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let failed: Mutex<Option<(usize, String)>> = Mutex::new(None);
    let total = Mutex::new(Cov::default());
    let nthreads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
    });
    std::thread::scope(|sc| {
        for i in 0..nthreads {
            let (next, stop, failed, total, cases) = (&next, &stop, &failed, &total, &cases);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    MY_SLOT.with(|s| s.set(i));
                    let mut cov = Cov { slot: i, ..Cov::default() };
                    loop {
                        let k = next.fetch_add(1, SeqCst);
                        if k >= cases.len() || stop.load(SeqCst) {
                            break;
                        }
                        if let Err(e) = run_case(p, &cases[k], tier, &mut cov) {
                            let mut f = failed.lock().unwrap();
                            if f.as_ref().map(|(j, _)| k < *j).unwrap_or(true) {
                                *f = Some((k, e));
                            }
                            stop.store(true, SeqCst);
                            break;
                        }
                    }
                    MY_SLOT.with(|s| s.set(usize::MAX));
                    total.lock().unwrap().merge(cov);
                })
                .unwrap();
        }
    });
    let cov = total.into_inner().unwrap();
    if let Some((k, e)) = failed.into_inner().unwrap() {
        report(&cases[k], &e, Some(&cov));
    }
    DONE.store(true, SeqCst);
    if cov.evaluations == 0 {
        eprintln!("engine error: nothing was explored");
        return 3;
    }
    write_evidence(&cov, 0);
    println!(
        "{} {}: held; groups={} executions={} transitions={} distinct={} wall={:.1}s",
        p.id, tier.name(), cases.len(), cov.evaluations, cov.transitions, cov.states.len(), start().elapsed().as_secs_f64()
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        for (k, v) in &cov.outcomes {
            println!("  {:8} {}", v, k);
        }
        for s in &cov.samples {
            println!("  sample: {}", s);
        }
    }
    0
}

/// Re-run the single case group named in a replay file.
pub fn replay(p: &'static Prop, tier: Tier, case: &str) -> i32 {
    install();
    REPLAYING.store(true, SeqCst);
    let _ = RUN.set(Run { id: p.id, level: p.level, rule: p.rule, bound: (p.bound)(tier), tier, ncases: 1 });
    watchdog();
    let case = case.to_string();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            MY_SLOT.with(|s| s.set(0));
            let mut cov = Cov::default();
            if let Err(e) = run_case(p, &case, tier, &mut cov) {
                report(&case, &e, Some(&cov));
            }
            println!("case held: {} ({} executions)", case, cov.evaluations);
        })
        .unwrap()
        .join()
        .unwrap();
    0
}

/// Fast 64-bit fingerprint.
pub fn fp(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0x9E37_79B9_7F4A_7C15;
    for p in parts {
        h = (h ^ p.len() as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
        let mut it = p.chunks_exact(8);
        for c in &mut it {
            let w = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
            h = (h.rotate_left(5) ^ w).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
        for b in it.remainder() {
            h = (h.rotate_left(5) ^ *b as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
    h ^ (h >> 29)
}
