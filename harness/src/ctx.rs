//! Scenario runner, violation reporting and the hang watchdog.
use crate::rng::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const MIRI: bool = cfg!(miri);

/// payload of the panics which are deliberately raised in user callbacks
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Injected(pub u64);

// ---------------------------------------------------------------- reporting

struct Current {
    prop: String,
    seed: u64,
    scenario: String,
    case: u64,
}
static CURRENT: Mutex<Option<Current>> = Mutex::new(None);
static REPORTED: AtomicBool = AtomicBool::new(false);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn hard_exit(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    #[cfg(not(miri))]
    unsafe {
        _exit(code)
    }
    #[cfg(miri)]
    std::process::exit(code)
}

/// Reports the refutation of the property with its witness and ends the process.
pub fn violation(msg: impl AsRef<str>) -> ! {
    if REPORTED.swap(true, SeqCst) {
        // another thread is reporting already
        loop {
            std::thread::sleep(Duration::from_millis(50));
        }
    }
    let (prop, seed, scenario, case) = match CURRENT.try_lock() {
        Ok(g) => match g.as_ref() {
            Some(c) => (c.prop.clone(), c.seed, c.scenario.clone(), c.case),
            None => ("?".into(), 0, "?".into(), 0),
        },
        Err(_) => ("?".into(), 0, "?".into(), 0),
    };
    let msg = msg.as_ref().replace(['\n', '\t'], " ");
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "@@VIOLATION\t{prop}\t{seed}\t{scenario}\t{case}\t{msg}");
    let _ = out.flush();
    hard_exit(10)
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            $crate::violation(format!($($arg)*));
        }
    };
}

fn payload_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Judges a panic which the workload did not provoke.
pub fn unexpected_panic(p: Box<dyn std::any::Any + Send>) -> ! {
    let last = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
    if p.downcast_ref::<Injected>().is_some() {
        harness_error("an injected panic was not caught by its scenario");
    }
    violation(format!(
        "unexpected panic: {} [{}]",
        payload_msg(&*p),
        last
    ))
}

pub fn harness_error(msg: &str) -> ! {
    if !REPORTED.swap(true, SeqCst) {
        println!("@@HARNESS-ERROR\t{}", msg.replace(['\n', '\t'], " "));
    }
    hard_exit(3)
}

/// Runs `f`, which must not panic; a panic is judged by [`unexpected_panic`].
pub fn no_panic<R>(f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => unexpected_panic(p),
    }
}

/// Runs `f`; returns None if it panicked for whatever reason.
pub fn panics<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Runs `f` in which an injected panic is allowed; any other panic is a violation.
pub fn injected<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) => match p.downcast_ref::<Injected>() {
            Some(_) => None,
            None => unexpected_panic(p),
        },
    }
}

pub fn inject(k: u64) -> ! {
    std::panic::panic_any(Injected(k))
}

// ---------------------------------------------------------------- time

static START: OnceLock<Instant> = OnceLock::new();

/// monotonic nanoseconds, comparable among threads, without synchronising them
#[inline]
pub fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_nanos() as u64
}

// ---------------------------------------------------------------- progress slots

const NSLOTS: usize = 128;

#[repr(align(128))]
struct Slot {
    used: AtomicBool,
    /// odd while inside an api call
    ops: AtomicU64,
    /// nonzero while inside a user callback
    cb: AtomicUsize,
    name: AtomicUsize,
    name_len: AtomicUsize,
    clock: AtomicU64,
    tid: AtomicU64,
}

#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    used: AtomicBool::new(false),
    ops: AtomicU64::new(0),
    cb: AtomicUsize::new(0),
    name: AtomicUsize::new(0),
    name_len: AtomicUsize::new(0),
    clock: AtomicU64::new(0),
    tid: AtomicU64::new(0),
};
static SLOTS: [Slot; NSLOTS] = [SLOT0; NSLOTS];

struct SlotGuard(usize);
impl Drop for SlotGuard {
    fn drop(&mut self) {
        if self.0 < NSLOTS {
            SLOTS[self.0].used.store(false, SeqCst);
        }
    }
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CHAOS: Cell<u64> = const { Cell::new(0) };
    static WORKER: Cell<usize> = const { Cell::new(0) };
}

fn slot_enter() -> SlotGuard {
    for (i, s) in SLOTS.iter().enumerate() {
        if s.used
            .compare_exchange(false, true, SeqCst, SeqCst)
            .is_ok()
        {
            s.cb.store(0, SeqCst);
            if s.ops.load(SeqCst) % 2 == 1 {
                s.ops.fetch_add(1, SeqCst);
            }
            #[cfg(not(miri))]
            unsafe {
                let mut c: i32 = 0;
                pthread_getcpuclockid(pthread_self(), &mut c);
                s.clock.store(c as u32 as u64, SeqCst);
                s.tid.store(gettid() as u64, SeqCst);
            }
            SLOT.with(|x| x.set(i));
            return SlotGuard(i);
        }
    }
    SLOT.with(|x| x.set(usize::MAX));
    SlotGuard(usize::MAX)
}

/// Marks an api call for the watchdog (nested marks are ignored unless they are within `user`).
#[inline]
pub fn op<R>(name: &'static str, f: impl FnOnce() -> R) -> R {
    if MIRI {
        return f();
    }
    let i = SLOT.with(|x| x.get());
    if i >= NSLOTS {
        return f();
    }
    let s = &SLOTS[i];
    let n = s.ops.load(Relaxed);
    if n % 2 == 1 {
        let cb = s.cb.load(Relaxed);
        if cb == 0 {
            return f();
        }
        // a call made by user code which is called back by another one
        let outer = (s.name.load(Relaxed), s.name_len.load(Relaxed));
        s.name.store(name.as_ptr() as usize, Relaxed);
        s.name_len.store(name.len(), Relaxed);
        s.cb.store(0, Relaxed);
        s.ops.store(n + 2, Relaxed);
        struct Back<'a>(&'a Slot, usize, (usize, usize));
        impl Drop for Back<'_> {
            fn drop(&mut self) {
                self.0.name.store(self.2 .0, Relaxed);
                self.0.name_len.store(self.2 .1, Relaxed);
                self.0.ops.store(self.0.ops.load(Relaxed) + 2, Relaxed);
                self.0.cb.store(self.1, Relaxed);
            }
        }
        let _b = Back(s, cb, outer);
        return f();
    }
    s.name.store(name.as_ptr() as usize, Relaxed);
    s.name_len.store(name.len(), Relaxed);
    s.ops.store(n + 1, Relaxed);
    struct End<'a>(&'a Slot);
    impl Drop for End<'_> {
        fn drop(&mut self) {
            self.0.ops.store(self.0.ops.load(Relaxed) + 1, Relaxed);
        }
    }
    let _e = End(s);
    f()
}

/// Marks user code called back by the api: time spent there is not the api's.
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    let i = SLOT.with(|x| x.get());
    if MIRI || i >= NSLOTS {
        return f();
    }
    SLOTS[i].cb.fetch_add(1, Relaxed);
    struct End(usize);
    impl Drop for End {
        fn drop(&mut self) {
            SLOTS[self.0].cb.fetch_sub(1, Relaxed);
        }
    }
    let _e = End(i);
    f()
}

#[cfg(not(miri))]
#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
#[cfg(not(miri))]
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn gettid() -> i32;
    fn _exit(code: i32) -> !;
}

#[cfg(not(miri))]
fn thread_state(tid: u64) -> char {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| {
            s.rsplit(')')
                .next()
                .and_then(|r| r.trim_start().chars().next())
        })
        .unwrap_or('?')
}

/// CPU seconds an operation may burn while nothing else in the process progresses
pub static HANG_CPU_MS: AtomicU64 = AtomicU64::new(8_000);

#[cfg(not(miri))]
fn watchdog() {
    #[derive(Clone, Copy, Default)]
    struct Seen {
        ops: u64,
        cpu_at: u64,
        sleeping: u64,
    }
    let cpu = |clock: u64| -> Option<u64> {
        let mut t = Timespec { s: 0, n: 0 };
        match unsafe { clock_gettime(clock as u32 as i32, &mut t) } {
            0 => Some(t.s as u64 * 1000 + t.n as u64 / 1_000_000),
            _ => None,
        }
    };
    let mut seen = [Seen::default(); NSLOTS];
    let mut last_total = u64::MAX;
    loop {
        std::thread::sleep(Duration::from_millis(250));
        let total: u64 = SLOTS.iter().map(|s| s.ops.load(Relaxed)).sum();
        let progressed = total != last_total;
        last_total = total;
        let limit = HANG_CPU_MS.load(Relaxed);
        let mut asleep = 0;
        let mut in_op = 0;
        for (i, s) in SLOTS.iter().enumerate() {
            if !s.used.load(SeqCst) {
                seen[i] = Seen::default();
                continue;
            }
            let ops = s.ops.load(Relaxed);
            let Some(c) = cpu(s.clock.load(Relaxed)) else {
                continue;
            };
            if progressed || ops % 2 == 0 || s.cb.load(Relaxed) > 0 || seen[i].ops != ops {
                seen[i] = Seen {
                    ops,
                    cpu_at: c,
                    sleeping: 0,
                };
                continue;
            }
            in_op += 1;
            if c.saturating_sub(seen[i].cpu_at) >= limit {
                let (p, l) = (s.name.load(Relaxed), s.name_len.load(Relaxed));
                let name = unsafe {
                    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, l))
                };
                violation(format!(
                    "call does not complete: '{name}' burned {} ms of its own cpu time while no other call in the process completed or started",
                    c.saturating_sub(seen[i].cpu_at)
                ));
            }
            if c == seen[i].cpu_at && thread_state(s.tid.load(Relaxed)) == 'S' {
                seen[i].sleeping += 1;
            } else {
                seen[i].sleeping = 0;
            }
            if seen[i].sleeping >= 160 {
                asleep += 1;
            }
        }
        if in_op > 0 && asleep == in_op {
            violation("calls do not complete: every thread inside an api call is blocked, asleep for 40 s");
        }
    }
}

// ---------------------------------------------------------------- workers

static CHAOS_LEVEL: AtomicU64 = AtomicU64::new(0);

/// sets how eagerly delays are injected: 0 none .. 255 always
pub fn set_chaos(level: u64) {
    CHAOS_LEVEL.store(level, Relaxed);
}

pub fn seed_chaos(seed: u64) {
    CHAOS.with(|c| c.set(seed | 1));
}

/// A potential delay; where it is placed (storage hook, user callback) the schedule is perturbed.
#[inline]
pub fn chaos_point() {
    let level = CHAOS_LEVEL.load(Relaxed);
    if level == 0 {
        return;
    }
    let r = CHAOS.with(|c| {
        let mut x = c.get() | 1;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        x >> 16
    });
    if (r & 255) >= level {
        return;
    }
    let r = r >> 8;
    if MIRI {
        std::thread::yield_now();
        return;
    }
    match r & 31 {
        0 => std::thread::sleep(Duration::from_micros(20 + (r >> 8) % 80)),
        1..=6 => std::thread::yield_now(),
        _ => {
            for _ in 0..((r >> 8) % 600) {
                std::hint::spin_loop();
            }
        }
    }
}

pub type Job<'s, R> = Box<dyn FnOnce(usize) -> R + Send + 's>;

/// Runs the jobs on threads that start together; returns results in order.
pub fn par<'s, R: Send + 's>(seed: u64, jobs: Vec<Job<'s, R>>) -> Vec<R> {
    let n = jobs.len();
    let ready = AtomicUsize::new(0);
    std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(i, f)| {
                let ready = &ready;
                s.spawn(move || {
                    let _g = slot_enter();
                    seed_chaos(hash2(seed, i as u64 + 1));
                    WORKER.with(|w| w.set(i + 1));
                    ready.fetch_add(1, SeqCst);
                    let mut k = 0u32;
                    while ready.load(SeqCst) < n {
                        k += 1;
                        if MIRI || k > 2000 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    no_panic(|| f(i))
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(p) => resume_unwind(p),
            })
            .collect()
    })
}

#[macro_export]
macro_rules! job {
    ($f:expr) => {
        Box::new($f) as $crate::Job<'_, _>
    };
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub kind: String,
    counts: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    sigs: HashSet<u64>,
    samples: BTreeMap<&'static str, Vec<String>>,
    scenario: &'static str,
    evaluations: u64,
}

impl Ctx {
    /// adds to a counter of the evidence
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn maximum(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// signature of a non-trivial case (distinct interleaving, history or input)
    pub fn sig(&mut self, h: u64) {
        if self.sigs.len() < 400_000 {
            self.sigs.insert(hash2(h, hash_str(self.scenario)));
        }
    }
    /// additional evaluated cases inside the current case
    pub fn eval(&mut self, n: u64) {
        self.evaluations += n;
    }
    pub fn wants_sample(&self) -> bool {
        self.samples.get(self.scenario).map_or(0, |v| v.len()) < 2
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.wants_sample() {
            let t = s();
            let t: String = t.chars().take(700).collect();
            self.samples.entry(self.scenario).or_default().push(t);
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// a in fast native builds, b under slow instrumentation (tsan), c in miri
    /// usually `a`, natively sometimes the large `b`
    pub fn rare(&self, rng: &mut Rng, a: usize, b: usize) -> usize {
        match !MIRI && rng.chance(1, 12) {
            true if self.kind == "tsan" || self.kind == "asan" => b / 3,
            true => b,
            false => a,
        }
    }
    pub fn size(&self, a: usize, b: usize, c: usize) -> usize {
        if MIRI {
            c
        } else if self.kind == "tsan" || self.kind == "asan" {
            b
        } else {
            a
        }
    }
}

pub struct Scenario {
    pub name: &'static str,
    /// share of the time budget
    pub weight: u32,
    pub f: fn(&mut Ctx, &mut Rng),
    /// part of the miri workload
    pub miri: bool,
    /// single-threaded: the whole case counts as one call for the watchdog
    pub seq: bool,
}

impl Scenario {
    pub const fn new(name: &'static str, weight: u32, f: fn(&mut Ctx, &mut Rng)) -> Self {
        Self {
            name,
            weight,
            f,
            miri: false,
            seq: false,
        }
    }
    pub const fn seq(mut self) -> Self {
        self.seq = true;
        self
    }
    pub const fn miri(mut self) -> Self {
        self.miri = true;
        self
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of each property's monitor.
pub fn run(prop: &'static str, scenarios: &[Scenario]) {
    let args: Vec<String> = std::env::args().collect();
    if args.iter().any(|a| a == "--build-only") {
        println!("@@BUILT");
        return;
    }
    let get = |k: &str| -> Option<String> {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let num = |k: &str, d: u64| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let seed = num("--seed", 1);
    let ms = num("--ms", 2000);
    let max_cases = num("--cases", u64::MAX);
    let kind = get("--kind").unwrap_or_else(|| "rel".into());
    let only = get("--only");
    let only_case = get("--case").and_then(|x| x.parse::<u64>().ok());
    let tier = match get("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if kind == "tsan" || kind == "asan" {
        HANG_CPU_MS.store(40_000, Relaxed);
    }

    let start = Instant::now();
    let _ = now();
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Injected>().is_some() {
            return;
        }
        let loc = info
            .location()
            .map(|l| format!("@ {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = loc;
        }
    }));
    #[cfg(not(miri))]
    std::thread::spawn(watchdog);
    let _g = slot_enter();

    let mut ctx = Ctx {
        tier,
        seed,
        kind: kind.clone(),
        counts: BTreeMap::new(),
        maxima: BTreeMap::new(),
        sigs: HashSet::new(),
        samples: BTreeMap::new(),
        scenario: "",
        evaluations: 0,
    };
    let sel: Vec<&Scenario> = scenarios
        .iter()
        .filter(|s| only.as_ref().map_or(true, |o| o == s.name))
        .filter(|s| !MIRI || s.miri)
        .collect();
    let mut spent = vec![0u64; sel.len()];
    let mut done = vec![0u64; sel.len()];
    let mut per: BTreeMap<&'static str, u64> = BTreeMap::new();
    loop {
        let elapsed = start.elapsed().as_millis() as u64;
        // least time spent relative to its weight first; every scenario at least once
        let next = (0..sel.len())
            .filter(|&i| done[i] < max_cases)
            .min_by_key(|&i| {
                if MIRI {
                    done[i]
                } else {
                    (spent[i] + if done[i] > 0 { 1 } else { 0 }) * 1000 / sel[i].weight as u64
                }
            });
        let Some(i) = next else { break };
        if !MIRI && elapsed >= ms && (done[i] > 0 || elapsed > ms * 4 + 20_000) && only_case.is_none() {
            break;
        }
        let sc = sel[i];
        let case = only_case.unwrap_or(done[i]);
        if let Ok(mut g) = CURRENT.lock() {
            *g = Some(Current {
                prop: prop.into(),
                seed,
                scenario: sc.name.into(),
                case,
            });
        }
        ctx.scenario = sc.name;
        ctx.evaluations += 1;
        let mut rng = Rng::new(hash2(hash2(seed, hash_str(sc.name)), case));
        seed_chaos(rng.next());
        set_chaos(0);
        let t = Instant::now();
        if sc.seq {
            op(sc.name, || no_panic(|| (sc.f)(&mut ctx, &mut rng)));
        } else {
            no_panic(|| (sc.f)(&mut ctx, &mut rng));
        }
        spent[i] += t.elapsed().as_micros() as u64;
        done[i] += 1;
        *per.entry(sc.name).or_insert(0) += 1;
        if only_case.is_some() && done[i] >= max_cases.min(200) {
            break;
        }
    }

    let mut o = String::new();
    o.push_str(&format!(
        "{{\"prop\":{},\"kind\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"wall_ms\":{}",
        js(prop),
        js(&kind),
        seed,
        ctx.evaluations,
        ctx.sigs.len(),
        start.elapsed().as_millis()
    ));
    let map = |m: &BTreeMap<&'static str, u64>| {
        m.iter()
            .map(|(k, v)| format!("{}:{}", js(k), v))
            .collect::<Vec<_>>()
            .join(",")
    };
    o.push_str(&format!(",\"scenarios\":{{{}}}", map(&per)));
    o.push_str(&format!(",\"counts\":{{{}}}", map(&ctx.counts)));
    o.push_str(&format!(",\"maxima\":{{{}}}", map(&ctx.maxima)));
    let samples: Vec<String> = ctx
        .samples
        .iter()
        .flat_map(|(k, v)| v.iter().map(move |s| js(&format!("{k}: {s}"))))
        .collect();
    o.push_str(&format!(",\"samples\":[{}]}}", samples.join(",")));
    #[cfg(not(miri))]
    if let Some(path) = get("--sigs") {
        let bytes: Vec<u8> = ctx.sigs.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(path, bytes);
    }
    if MIRI && get("--sigs").is_some() {
        let v: Vec<String> = ctx.sigs.iter().take(20_000).map(|x| format!("{x:x}")).collect();
        println!("@@SIGS\t{}", v.join(","));
    }
    println!("@@RESULT\t{o}");
    hard_exit(0)
}
