//! Instrumented payloads: every value identifies itself and can tell whether it is intact and alive.
use crate::ctx::*;
use orx_concurrent_vec::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

/// A payload made of a 64-bit logical value, whose integrity can be verified.
pub trait Pay: Clone + PartialEq + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn make(v: u64) -> Self;
    /// the logical value; reports a violation if the payload is not intact
    fn val(&self) -> u64;
    /// in-place change, by several writes
    fn put(&mut self, v: u64) {
        *self = Self::make(v);
    }
    /// the result of comparing the payloads with these logical values
    fn same(a: u64, b: u64) -> bool {
        a == b
    }
    /// by `copied` if the type allows
    fn copied_of(e: &ConcurrentElement<Self>) -> Self {
        e.cloned()
    }
    fn copied_at<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentVec<Self, P>, i: usize) -> Option<Self> {
        v.get_cloned(i)
    }
    fn copied_in<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(s: &ConcurrentSlice<'_, Self, P>, i: usize) -> Option<Self> {
        s.get_cloned(i)
    }
}
macro_rules! copy_type {
    () => {
        fn copied_of(e: &ConcurrentElement<Self>) -> Self {
            e.copied()
        }
        fn copied_at<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentVec<Self, P>, i: usize) -> Option<Self> {
            v.get_copied(i)
        }
        fn copied_in<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(s: &ConcurrentSlice<'_, Self, P>, i: usize) -> Option<Self> {
            s.get_copied(i)
        }
    };
}

#[inline]
pub fn sum(v: u64, k: u64) -> u64 {
    (v ^ (0x5DEE_CE66 + k).wrapping_mul(0x9E37_79B9_7F4A_7C15)).rotate_left((k % 61) as u32)
}

impl Pay for u64 {
    const NAME: &'static str = "u64";
    copy_type!();
    fn make(v: u64) -> Self {
        v
    }
    #[inline]
    fn val(&self) -> u64 {
        *self
    }
    fn put(&mut self, v: u64) {
        // an intermediate state which nobody stored
        unsafe { std::ptr::write_volatile(self, !v) };
        chaos_point();
        unsafe { std::ptr::write_volatile(self, v) };
    }
}

/// multi-word inline payload: a mix of two values is detected
#[derive(Clone, Copy, PartialEq)]
pub struct Wide(pub [u64; 9]);
impl Debug for Wide {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl Pay for Wide {
    const NAME: &'static str = "wide";
    copy_type!();
    fn make(v: u64) -> Self {
        let mut a = [0; 9];
        for (k, x) in a.iter_mut().enumerate() {
            *x = sum(v, k as u64);
        }
        Wide(a)
    }
    fn val(&self) -> u64 {
        let v = self.0[0] ^ 0x5DEE_CE66u64.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        for k in 1..9 {
            if self.0[k] != sum(v, k as u64) {
                violation(format!(
                    "a reader was given a torn or uninitialised value: {:x?}",
                    self.0
                ));
            }
        }
        v
    }
    fn put(&mut self, v: u64) {
        for k in 0..9 {
            self.0[k] = sum(v, k as u64);
            if k % 3 == 0 {
                chaos_point();
            }
        }
    }
}

/// over-aligned payload
#[derive(Clone, Copy, PartialEq)]
#[repr(align(64))]
pub struct Aligned(pub u64, pub u64);
impl Debug for Aligned {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl Pay for Aligned {
    const NAME: &'static str = "align64";
    copy_type!();
    fn make(v: u64) -> Self {
        Aligned(v, sum(v, 7))
    }
    fn val(&self) -> u64 {
        if (self as *const Self as usize) % 64 != 0 {
            violation("a value is stored at a misaligned address");
        }
        if self.1 != sum(self.0, 7) {
            violation(format!(
                "a reader was given a torn or uninitialised value: {:x} {:x}",
                self.0, self.1
            ));
        }
        self.0
    }
}

/// payload of 13 bytes without alignment
#[derive(Clone, Copy, PartialEq)]
pub struct Odd(pub [u8; 13]);
impl Debug for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl Pay for Odd {
    const NAME: &'static str = "odd";
    copy_type!();
    fn make(v: u64) -> Self {
        let mut b = [0; 13];
        b[..8].copy_from_slice(&v.to_le_bytes());
        b[8..].copy_from_slice(&sum(v, 11).to_le_bytes()[..5]);
        Odd(b)
    }
    fn val(&self) -> u64 {
        let mut v = [0; 8];
        v.copy_from_slice(&self.0[..8]);
        let v = u64::from_le_bytes(v);
        if self.0[8..] != sum(v, 11).to_le_bytes()[..5] {
            violation(format!(
                "a reader was given a torn or uninitialised value: {:x?}",
                self.0
            ));
        }
        v
    }
    fn put(&mut self, v: u64) {
        let n = Self::make(v);
        for k in 0..13 {
            self.0[k] = n.0[k];
            if k == 7 {
                chaos_point();
            }
        }
    }
}

/// payload whose == is coarser than identity, and not reflexive for some values
#[derive(Clone, Copy, Debug)]
pub struct Loose(pub u64);
impl PartialEq for Loose {
    fn eq(&self, o: &Self) -> bool {
        Self::same(self.0, o.0)
    }
}
impl Pay for Loose {
    const NAME: &'static str = "loose";
    copy_type!();
    fn make(v: u64) -> Self {
        Loose(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn same(a: u64, b: u64) -> bool {
        a % 5 != 3 && a >> 1 == b >> 1 && b % 5 != 3
    }
}

impl Pay for String {
    const NAME: &'static str = "string";
    fn make(v: u64) -> Self {
        format!("{}#{:x}", v, sum(v, 3) & 0xffff)
    }
    fn val(&self) -> u64 {
        let mut it = self.split('#');
        let v = it.next().and_then(|x| x.parse::<u64>().ok());
        let c = it.next();
        match (v, c) {
            (Some(v), Some(c)) if c == format!("{:x}", sum(v, 3) & 0xffff) => v,
            _ => violation(format!("a reader was given a corrupt string {self:?}")),
        }
    }
}

// ---------------------------------------------------------------- tokens with a live registry

const LIVE: u8 = 1;
const DEAD: u8 = 2;
pub const REG_SIZE: usize = if cfg!(miri) { 1 << 14 } else { 1 << 22 };
static REG: [AtomicU8; REG_SIZE] = [const { AtomicU8::new(0) }; REG_SIZE];
static NEXT: AtomicU32 = AtomicU32::new(1);
static LIVE_COUNT: AtomicI64 = AtomicI64::new(0);
static DROPS: AtomicU64 = AtomicU64::new(0);
static MADE: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static LAST_DROPPED: Cell<u64> = const { Cell::new(u64::MAX) };
    static DROPPED_HERE: Cell<u64> = const { Cell::new(0) };
    static PANIC_ON_DROP: Cell<u64> = const { Cell::new(u64::MAX) };
    static PANIC_ON_CLONE: Cell<u64> = const { Cell::new(u64::MAX) };
    static PANIC_ON_EQ: Cell<u64> = const { Cell::new(u64::MAX) };
    static PANIC_ON_DEBUG: Cell<u64> = const { Cell::new(u64::MAX) };
    static CHAOS_IN_TOK: Cell<bool> = const { Cell::new(false) };
}

/// Value with identity: its instance is registered as live on creation and as dead on drop.
/// Using, dropping or leaking it wrongly is a violation. It owns a heap cell as well.
pub struct Tok {
    inst: u32,
    tag: u32,
    v: u64,
    heap: Box<u64>,
}

const TAG: u32 = 0x7045_4E31;

/// forget all instances; must be called at quiescence, when no token is alive
pub fn tok_reset() {
    let n = NEXT.load(Relaxed) as usize;
    // instances are reused only if needed, so that late uses of old ones are noticed
    if n > REG_SIZE / 2 {
        for r in REG.iter().take(n.min(REG_SIZE)) {
            r.store(0, Relaxed);
        }
        NEXT.store(1, Relaxed);
    }
    LIVE_COUNT.store(0, Relaxed);
}
pub fn tok_live() -> i64 {
    LIVE_COUNT.load(Relaxed)
}
pub fn tok_drops() -> u64 {
    DROPS.load(Relaxed)
}
pub fn tok_made() -> u64 {
    MADE.load(Relaxed)
}
/// logical value of the token dropped last by this thread
pub fn tok_last_dropped() -> u64 {
    LAST_DROPPED.with(|x| x.get())
}
pub fn tok_dropped_here() -> u64 {
    DROPPED_HERE.with(|x| x.get())
}
pub fn tok_clear_last_dropped() {
    LAST_DROPPED.with(|x| x.set(u64::MAX));
    DROPPED_HERE.with(|x| x.set(0));
}
/// the next drop / clone / comparison / formatting of logical value v on this thread panics (once)
pub fn tok_panic_on_drop(v: u64) {
    PANIC_ON_DROP.with(|x| x.set(v));
}
pub fn tok_panic_on_clone(v: u64) {
    PANIC_ON_CLONE.with(|x| x.set(v));
}
pub fn tok_panic_on_eq(v: u64) {
    PANIC_ON_EQ.with(|x| x.set(v));
}
pub fn tok_panic_on_debug(v: u64) {
    PANIC_ON_DEBUG.with(|x| x.set(v));
}
// ---- gates: a thread can be made to wait inside a callback until it is released

pub struct Gate {
    pub arrived: AtomicU32,
    pub open: AtomicU32,
    pub done: AtomicU32,
}
pub const NGATES: usize = 12;
pub static GATES: [Gate; NGATES] = [const {
    Gate {
        arrived: AtomicU32::new(0),
        open: AtomicU32::new(0),
        done: AtomicU32::new(0),
    }
}; NGATES];
pub fn gates_reset() {
    for g in &GATES {
        g.arrived.store(0, Relaxed);
        g.open.store(0, Relaxed);
        g.done.store(0, Relaxed);
    }
}
fn nap() {
    if MIRI {
        std::thread::yield_now();
    } else {
        std::thread::sleep(std::time::Duration::from_micros(20));
    }
}
/// waits outside of the api
pub fn wait_for(mut f: impl FnMut() -> bool) {
    let mut k = 0u32;
    while !f() {
        k += 1;
        match k < 2000 && !MIRI {
            true => std::hint::spin_loop(),
            false => nap(),
        }
    }
}
/// called inside of a callback: does not return until the gate is opened
pub fn stall_at(gate: usize) {
    user(|| {
        let g = &GATES[gate];
        g.arrived.store(1, std::sync::atomic::Ordering::Release);
        wait_for(|| g.open.load(std::sync::atomic::Ordering::Acquire) == 1);
    })
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Callback {
    Clone,
    Eq,
    Debug,
    Drop,
}
thread_local! {
    static STALL_ON: Cell<Option<(Callback, u64, usize)>> = const { Cell::new(None) };
}
/// the next such callback with this logical value on this thread stalls at the gate
pub fn tok_stall_on(c: Callback, v: u64, gate: usize) {
    STALL_ON.with(|s| s.set(Some((c, v, gate))));
}
pub fn tok_stall_off() {
    STALL_ON.with(|s| s.set(None));
}
type Hook<'a> = &'a mut dyn FnMut(Callback, u64);
thread_local! {
    static HOOK: Cell<Option<*mut ()>> = const { Cell::new(None) };
}
/// calls `hook` in the callbacks of the tokens on this thread during `f`, except within the hook itself
pub fn tok_hooked<R>(mut hook: Hook, f: impl FnOnce() -> R) -> R {
    struct Back(Option<*mut ()>);
    impl Drop for Back {
        fn drop(&mut self) {
            HOOK.with(|h| h.set(self.0));
        }
    }
    let p: *mut Hook = &mut hook;
    let _b = Back(HOOK.with(|h| h.replace(Some(p.cast()))));
    f()
}
fn maybe_hook(c: Callback, v: u64) {
    if let Some(p) = HOOK.with(|h| h.take()) {
        // the hook outlives the call of `tok_hooked` which set it
        let hook: &mut Hook = unsafe { &mut *p.cast() };
        hook(c, v);
        HOOK.with(|h| h.set(Some(p)));
    }
}
fn maybe_stall(c: Callback, v: u64) {
    maybe_hook(c, v);
    maybe_stall_only(c, v);
}
fn maybe_stall_only(c: Callback, v: u64) {
    STALL_ON.with(|s| {
        if let Some((sc, sv, gate)) = s.get() {
            if sc == c && sv == v {
                s.set(None);
                stall_at(gate);
            }
        }
    });
}

pub fn tok_chaos(on: bool) {
    CHAOS_IN_TOK.with(|x| x.set(on));
}
fn tok_chaos_point() {
    if CHAOS_IN_TOK.with(|x| x.get()) {
        chaos_point();
    }
}

impl Tok {
    pub fn new(v: u64) -> Self {
        let mut inst = NEXT.fetch_add(1, Relaxed) as usize;
        if inst >= REG_SIZE {
            // wrap around: find a slot which is not live
            inst = (inst % (REG_SIZE - 1)) + 1;
            let mut k = 0;
            while REG[inst].load(Relaxed) == LIVE {
                inst = inst % (REG_SIZE - 1) + 1;
                k += 1;
                if k > REG_SIZE {
                    harness_error("token registry exhausted");
                }
            }
        }
        REG[inst].store(LIVE, Relaxed);
        LIVE_COUNT.fetch_add(1, Relaxed);
        MADE.fetch_add(1, Relaxed);
        Tok {
            inst: inst as u32,
            tag: TAG,
            v,
            heap: Box::new(sum(v, inst as u64)),
        }
    }
    pub fn check(&self, what: &str) {
        let i = self.inst as usize;
        if self.tag != TAG || i == 0 || i >= REG_SIZE {
            violation(format!(
                "{what}: not a value that was ever stored (tag {:x}, instance {i})",
                self.tag
            ));
        }
        if REG[i].load(Relaxed) != LIVE {
            violation(format!(
                "{what}: value {} (instance {i}) was already dropped",
                self.v
            ));
        }
        if *self.heap != sum(self.v, self.inst as u64) {
            violation(format!("{what}: corrupt or torn value {}", self.v));
        }
    }
    pub fn instance(&self) -> u32 {
        self.inst
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let i = self.inst as usize;
        if self.tag != TAG || i == 0 || i >= REG_SIZE {
            violation(format!(
                "something was dropped which was never stored as a value (tag {:x}, instance {i})",
                self.tag
            ));
        }
        if REG[i].swap(DEAD, Relaxed) != LIVE {
            violation(format!(
                "value {} (instance {i}) is dropped twice",
                self.v
            ));
        }
        if *self.heap != sum(self.v, self.inst as u64) {
            violation(format!("drop: corrupt or torn value {}", self.v));
        }
        *self.heap = 0xDEAD;
        LIVE_COUNT.fetch_sub(1, Relaxed);
        DROPS.fetch_add(1, Relaxed);
        LAST_DROPPED.with(|x| x.set(self.v));
        DROPPED_HERE.with(|x| x.set(x.get() + 1));
        tok_chaos_point();
        maybe_stall(Callback::Drop, self.v);
        PANIC_ON_DROP.with(|x| {
            if x.get() == self.v {
                x.set(u64::MAX);
                inject(self.v);
            }
        });
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        self.check("clone");
        tok_chaos_point();
        maybe_stall(Callback::Clone, self.v);
        PANIC_ON_CLONE.with(|x| {
            if x.get() == self.v {
                x.set(u64::MAX);
                inject(self.v);
            }
        });
        let t = Tok::new(self.v);
        self.check("clone");
        t
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        self.check("comparison");
        o.check("comparison");
        tok_chaos_point();
        maybe_stall(Callback::Eq, self.v);
        maybe_stall_only(Callback::Eq, o.v);
        PANIC_ON_EQ.with(|x| {
            if x.get() == self.v || x.get() == o.v {
                x.set(u64::MAX);
                inject(self.v);
            }
        });
        let r = self.v == o.v;
        self.check("comparison");
        o.check("comparison");
        r
    }
}
impl Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check("formatting");
        maybe_stall(Callback::Debug, self.v);
        PANIC_ON_DEBUG.with(|x| {
            if x.get() == self.v {
                x.set(u64::MAX);
                inject(self.v);
            }
        });
        write!(f, "{}", self.v)
    }
}
impl Pay for Tok {
    const NAME: &'static str = "token";
    fn make(v: u64) -> Self {
        Tok::new(v)
    }
    fn val(&self) -> u64 {
        self.check("read");
        self.v
    }
    fn put(&mut self, v: u64) {
        self.check("update");
        self.v = v;
        chaos_point();
        *self.heap = sum(v, self.inst as u64);
    }
}

// ---------------------------------------------------------------- counting allocator

pub struct CountingAlloc;
static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
/// (live bytes, live blocks) of the process
pub fn heap_balance() -> (i64, i64) {
    (BYTES.load(Relaxed), BLOCKS.load(Relaxed))
}
