use mon::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, MutexGuard, RwLock};
use std::thread::ThreadId;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

// ---- probes: what the compiler offers for a type, decided without requiring it

struct IsSend<X>(PhantomData<X>);
struct IsSync<X>(PhantomData<X>);
trait No {
    fn yes(&self) -> bool {
        false
    }
}
impl<X> No for IsSend<X> {}
impl<X> No for IsSync<X> {}
impl<X: Send> IsSend<X> {
    fn yes(&self) -> bool {
        true
    }
}
impl<X: Sync> IsSync<X> {
    fn yes(&self) -> bool {
        true
    }
}
macro_rules! send {
    ($t:ty) => {
        IsSend::<$t>(PhantomData).yes()
    };
}
macro_rules! sync {
    ($t:ty) => {
        IsSync::<$t>(PhantomData).yes()
    };
}

// ---- payloads that watch on which threads they are used

/// may be used by one thread only at a time (Send, not Sync)
struct Alone {
    v: Cell<u64>,
    busy: AtomicUsize,
}
/// must stay on the thread that made it, although it may be looked at elsewhere (Sync, not Send)
struct Home {
    v: u64,
    at: ThreadId,
    _no_send: PhantomData<MutexGuard<'static, u64>>,
}
/// must never be seen on another thread (neither Send nor Sync)
struct Local {
    v: Cell<u64>,
    at: ThreadId,
    _neither: PhantomData<std::rc::Rc<u64>>,
}
/// free to be used anywhere
struct Free {
    v: u64,
    n: AtomicU64,
}

trait Watched: Sized {
    const NAME: &'static str;
    const SEND: bool;
    const SYNC: bool;
    fn new(v: u64) -> Self;
    /// looks at the value on the current thread
    fn look(&self) -> u64;
}
impl Watched for Alone {
    const NAME: &'static str = "a type that is Send but not Sync";
    const SEND: bool = true;
    const SYNC: bool = false;
    fn new(v: u64) -> Self {
        Alone { v: Cell::new(v), busy: AtomicUsize::new(0) }
    }
    fn look(&self) -> u64 {
        if self.busy.fetch_add(1, SeqCst) != 0 {
            violation("two threads look at a value at the same time although its type is not Sync");
        }
        self.v.set(self.v.get());
        chaos_point();
        self.busy.fetch_sub(1, SeqCst);
        self.v.get()
    }
}
impl Watched for Home {
    const NAME: &'static str = "a type that is Sync but not Send";
    const SEND: bool = false;
    const SYNC: bool = true;
    fn new(v: u64) -> Self {
        Home { v, at: std::thread::current().id(), _no_send: PhantomData }
    }
    fn look(&self) -> u64 {
        self.v
    }
}
impl Drop for Home {
    fn drop(&mut self) {
        if self.at != std::thread::current().id() {
            violation("a value was moved to and dropped by another thread although its type is not Send");
        }
    }
}
impl Watched for Local {
    const NAME: &'static str = "a type that is neither Send nor Sync";
    const SEND: bool = false;
    const SYNC: bool = false;
    fn new(v: u64) -> Self {
        Local { v: Cell::new(v), at: std::thread::current().id(), _neither: PhantomData }
    }
    fn look(&self) -> u64 {
        if self.at != std::thread::current().id() {
            violation("a value is used by another thread although its type is neither Send nor Sync");
        }
        self.v.get()
    }
}
impl Drop for Local {
    fn drop(&mut self) {
        self.look();
    }
}
impl Watched for Free {
    const NAME: &'static str = "a type that is Send and Sync";
    const SEND: bool = true;
    const SYNC: bool = true;
    fn new(v: u64) -> Self {
        Free { v, n: AtomicU64::new(0) }
    }
    fn look(&self) -> u64 {
        self.n.fetch_add(1, Relaxed);
        self.v
    }
}

/// carries what the library offers to send, when it does
struct Carry<X>(X);
unsafe impl<X> Send for Carry<X> {}
impl<X> Carry<X> {
    fn get(self) -> X {
        self.0
    }
}
fn on_threads<X: Send>(n: usize, mk: impl Fn(usize) -> X, f: impl Fn(usize, X) + Sync) {
    let fr = &Carry(&f);
    std::thread::scope(|s| {
        for t in 0..n {
            let x = mk(t);
            s.spawn(move || {
                let f = fr;
                no_panic(|| (f.0)(t, x))
            });
        }
    });
}

/// what a shared reference to a vec, slice or element allows
fn share<T: Watched, P: Store<T>>(vec: &ConcurrentVec<T, P>, t: usize, rng: &mut Rng, through: usize) -> u64 {
    let n = vec.len();
    let mut k = 0;
    for _ in 0..if MIRI { 4 } else { 40 } {
        let (i, j) = (rng.below(n), rng.below(n));
        let v = 1000 + t as u64;
        k += 1;
        match (through, rng.below(6)) {
            (0, 0) => {
                vec.push(T::new(v));
            }
            (0, 1) => {
                vec.swap(i, j);
            }
            (1, 0) => {
                vec.slice(i..).fill_with(|_| T::new(v));
            }
            (1, 1) => {
                vec.as_slice().swap(i, j);
            }
            (_, 2) => drop(vec[i].replace(T::new(v))),
            (_, 3) => vec[i].set(T::new(v)),
            (_, 4) => vec[i].update(|x| {
                x.look();
                *x = T::new(v);
            }),
            _ => vec[i].map(|x| {
                x.look();
            }),
        }
    }
    k
}

struct Offer {
    vec_sync: bool,
    vec_send: bool,
    slice_sync: bool,
    slice_send: bool,
    elem_sync: bool,
    elem_ref_send: bool,
    elem_send: bool,
    iter_send: bool,
    into_send: bool,
    mutex: bool,
}

fn judge<T: Watched, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng, o: Offer) {
    let w = |x: &str| format!("{x} with {} storage of {}", P::NAME, T::NAME);
    let n = rng.range(2, if MIRI { 4 } else { 20 });
    let threads = rng.range(2, if MIRI { 2 } else { 4 });
    let seed = rng.next();
    let mut used = 0u64;
    let fill = |vec: &ConcurrentVec<T, P>| {
        for k in 0..n {
            vec.push(T::new(k as u64));
        }
    };
    // whatever is offered is used, so that the watchers see what becomes possible by it
    for (offered, through) in [(o.vec_sync, 0), (o.slice_sync || o.slice_send, 1), (o.elem_sync || o.elem_ref_send || o.iter_send, 2)] {
        if offered {
            let vec = P::build(rng, n + 200);
            fill(&vec);
            let v = Carry(&vec);
            on_threads(threads, |_| Carry(v.0), |t, v| {
                let v = v.get();
                share(v, t, &mut Rng::new(seed + t as u64), through);
            });
            used += 1;
            // the values were made by other threads and may only be dropped here if they are Send
            if !T::SEND {
                std::mem::forget(vec);
            }
        }
    }
    if o.vec_send {
        let vec = P::build(rng, n + 200);
        fill(&vec);
        on_threads(1, |_| (), |_, _| {});
        let c = Carry(vec);
        std::thread::scope(|s| {
            s.spawn(move || {
                no_panic(|| {
                    let vec = c.get();
                    let r: u64 = vec.iter().map(|e| e.map(|x| x.look())).sum();
                    check!(r == (0..n as u64).sum(), "{} has other contents after it was sent: {r}", w("the vec"));
                    vec.push(T::new(7));
                    vec.swap(0, 1);
                })
            });
        });
        used += 1;
    }
    if o.into_send {
        let vec = P::build(rng, n);
        fill(&vec);
        let c = Carry(vec.into_iter());
        std::thread::scope(|s| {
            s.spawn(move || {
                no_panic(|| {
                    let r: u64 = c.get().map(|x| x.look()).sum();
                    check!(r == (0..n as u64).sum(), "{} yields other values after it was sent: {r}", w("into_iter"));
                })
            });
        });
        used += 1;
    }
    if o.elem_send {
        let e = Carry(ConcurrentElement::from(ConcurrentOption::some(T::new(5))));
        std::thread::scope(|s| {
            s.spawn(move || {
                no_panic(|| {
                    let e = e.get();
                    check!(e.map(|x| x.look()) == 5, "{} has another value after it was sent", w("the element"));
                    e.set(T::new(6));
                })
            });
        });
        used += 1;
    }
    // the offers themselves
    let both = T::SEND && T::SYNC;
    for (name, offered) in [("vec", o.vec_sync), ("slice", o.slice_sync), ("element", o.elem_sync), ("slice (sent by copy)", o.slice_send), ("element (sent by reference)", o.elem_ref_send)] {
        check!(offered == both, "{}: sharing among threads is {}, but values can be moved in and out through a shared reference", w(name), if offered { "offered" } else { "not offered" });
    }
    for (name, offered) in [("vec", o.vec_send), ("element", o.elem_send), ("into_iter", o.into_send)] {
        check!(!offered || T::SEND, "{}: sending to another thread is offered", w(name));
        check!(offered || !both, "{}: sending to another thread is not offered", w(name));
    }
    check!(o.iter_send == both, "{}: sending is {}", w("iter"), if o.iter_send { "offered" } else { "not offered" });
    check!(o.mutex == both || !both, "{}: cannot be shared inside of an Arc", w("vec"));
    ctx.count("offers_judged", 10);
    ctx.count("offers_used_by_threads", used);
    ctx.sig(hash2(hash_str(P::NAME), hash_str(T::NAME)));
    ctx.sample(|| format!("{}: {used} offers were used by {threads} threads", w("vec")));
}

/// a probe of the (unnameable) type that a function returns; Option<fn> avoids calling it
fn of_ret<A, R>(_: fn(A) -> R) -> IsSend<R> {
    IsSend(PhantomData)
}

macro_rules! offer {
    ($t:ty, $p:ty) => {{
        type V = ConcurrentVec<$t, $p>;
        type S = ConcurrentSlice<'static, $t, $p>;
        type E = ConcurrentElement<$t>;
        fn it(v: &'static V) -> impl Iterator<Item = &'static E> {
            v.iter()
        }
        Offer {
            vec_sync: sync!(V),
            vec_send: send!(V),
            slice_sync: sync!(S),
            slice_send: send!(S),
            elem_sync: sync!(E),
            elem_ref_send: send!(&'static E),
            elem_send: send!(E),
            iter_send: of_ret(it).yes(),
            into_send: send!(<V as IntoIterator>::IntoIter),
            mutex: sync!(Arc<V>),
        }
    }};
}
macro_rules! all {
    ($ctx:expr, $rng:expr, $($t:ty),*) => {$(
        judge::<$t, Dbl<$t>>($ctx, $rng, offer!($t, Dbl<$t>));
        judge::<$t, Lin<$t>>($ctx, $rng, offer!($t, Lin<$t>));
        judge::<$t, Fix<$t>>($ctx, $rng, offer!($t, Fix<$t>));
    )*};
}
fn offers(ctx: &mut Ctx, rng: &mut Rng) {
    set_chaos(100);
    all!(ctx, rng, Free, Alone, Home, Local);
    set_chaos(0);
}

/// the offers for ordinary types
fn types(ctx: &mut Ctx, _: &mut Rng) {
    macro_rules! t {
        ($send:expr, $sync:expr, $($t:ty),*) => {$(
            let name = std::any::type_name::<$t>();
            for (store, o) in [("doubling", offer!($t, Dbl<$t>)), ("linear", offer!($t, Lin<$t>)), ("fixed", offer!($t, Fix<$t>))] {
                let both = $send && $sync;
                for (what, x) in [("vec", o.vec_sync), ("slice", o.slice_sync), ("element", o.elem_sync)] {
                    check!(x == both, "a {what} of {name} ({store}): sharing among threads is {}", if x { "offered" } else { "not offered" });
                }
                for (what, x) in [("vec", o.vec_send), ("element", o.elem_send), ("into_iter", o.into_send)] {
                    check!(!x || $send, "a {what} of {name} ({store}): sending to another thread is offered");
                    check!(x || !both, "a {what} of {name} ({store}): sending to another thread is not offered");
                }
                ctx.count("offers_judged", 6);
            }
            ctx.sig(hash_str(name));
        )*};
    }
    t!(true, true, u64, (), String, Vec<u8>, Box<dyn Fn(u32) -> u32 + Send + Sync>, Arc<String>, Mutex<Cell<u64>>, AtomicU64, Option<Box<str>>, &'static str, [u128; 9], fn(u8) -> u8);
    t!(true, true, RwLock<String>, ConcurrentVec<u64>, Result<u8, String>, std::sync::mpsc::Sender<u8>, char, &'static AtomicU64);
    t!(true, false, Cell<u64>, std::cell::RefCell<String>, std::sync::mpsc::Receiver<u8>, Box<dyn Fn(u32) -> u32 + Send>, ConcurrentVec<Cell<u64>>, Vec<Cell<u8>>);
    t!(false, true, MutexGuard<'static, u64>, std::sync::RwLockReadGuard<'static, u64>, Box<dyn Fn(u32) -> u32 + Sync>);
    t!(false, false, std::rc::Rc<u64>, *const u8, *mut u64, std::rc::Weak<u8>, Box<dyn Fn(u32) -> u32>, &'static Cell<u64>, Arc<Cell<u64>>, Option<std::rc::Rc<str>>, RwLock<std::rc::Rc<u8>>);
}

fn main() {
    run("C18", &[Scenario::new("types", 1, types).miri(), Scenario::new("offers", 6, offers).miri()]);
}
