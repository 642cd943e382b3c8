use mon::growth::*;
use mon::*;
use std::any::Any;
use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

thread_local! {
    /// what comparisons on this thread have seen, and what they answer
    static SEEN: RefCell<Vec<(u64, u64)>> = const { RefCell::new(vec![]) };
    static ANSWER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// position and version, with integrity check; comparisons are recorded
#[derive(Clone)]
struct Rec(Wide);
impl PartialEq for Rec {
    fn eq(&self, o: &Self) -> bool {
        let p = (self.val(), o.val());
        SEEN.with(|s| s.borrow_mut().push(p));
        ANSWER.with(|a| a.get())
    }
}
impl Debug for Rec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let a = self.val();
        chaos_point();
        let b = self.val();
        check!(a == b, "a value changes while it is being formatted");
        write!(f, "{a}")
    }
}
impl Pay for Rec {
    const NAME: &'static str = "recorder";
    fn make(v: u64) -> Self {
        Rec(Wide::make(v))
    }
    fn val(&self) -> u64 {
        self.0.val()
    }
    fn put(&mut self, v: u64) {
        self.0.put(v)
    }
}
fn recorded<R>(answer: bool, f: impl FnOnce() -> R) -> (R, Vec<(u64, u64)>) {
    SEEN.with(|s| s.borrow_mut().clear());
    ANSWER.with(|a| a.set(answer));
    let r = f();
    (r, SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())))
}

const KINDS: [&str; 17] = [
    "iter", "iter_cloned", "map", "filter", "fold", "reduce", "clone_to_vec", "Debug", "index_of", "contains", "iter in steps", "iter_cloned in steps", "map in steps",
    "==", "== reversed", "== [T]", "iter_ref",
];
const POS: u64 = 32;
const FAKE: u64 = u64::MAX >> 1;

/// values in the order in which they are visited
fn visit<P: Store<Rec> + 'static, V: View<Rec, P>>(v: &V, kind: usize, lazy: &mut dyn Iterator<Item = u64>, pause: &dyn Fn()) -> Vec<u64> {
    let probe = Rec::make(FAKE);
    let mut seen = vec![];
    match kind {
        0 => v.v_iter_vals(),
        1 => v.v_iter_cloned(),
        2 => v.v_map(),
        3 => {
            let n = v.v_filter(|x| {
                seen.push(x);
                x % 3 == 0
            });
            let k = n.len();
            drop(n);
            check!(k == seen.iter().filter(|x| **x % 3 == 0).count(), "filter yields {k} elements, not all which the predicate accepts");
            seen
        }
        4 => {
            let n = v.v_fold(0usize, |n, x| {
                seen.push(x);
                n + 1
            });
            check!(n == seen.len(), "fold gives the result {n} of {} steps", seen.len());
            seen
        }
        5 => {
            let r = v.v_reduce(|a, b| {
                if seen.is_empty() {
                    seen.push(a.val());
                }
                seen.push(b.val());
                b.clone()
            });
            match r {
                Some(x) if seen.is_empty() => seen.push(x.val()),
                Some(x) => check!(Some(x.val()) == seen.last().copied(), "reduce gives another value than its last step"),
                None => check!(seen.is_empty(), "reduce gives None after visiting elements"),
            }
            seen
        }
        6 => v.v_clone_to_vec().iter().map(|x| x.val()).collect(),
        7 => {
            let s = v.v_debug();
            let t = s.strip_prefix('[').and_then(|s| s.strip_suffix(']'));
            let Some(t) = t else { violation(format!("{} is formatted as {}", v.what(), s.chars().take(99).collect::<String>())) };
            if t.is_empty() {
                return vec![];
            }
            t.split(", ")
                .map(|x| x.parse().unwrap_or_else(|_| violation(format!("{} is formatted with an item {x}", v.what()))))
                .collect()
        }
        8 | 9 => {
            let (r, s) = recorded(false, || if kind == 8 { v.v_index_of(&probe).is_some() } else { v.v_contains(&probe) });
            check!(!r, "{} found a value which does not equal any", KINDS[kind]);
            s.iter().map(|(a, b)| if *a == FAKE { *b } else { *a }).collect()
        }
        10..=12 => {
            // the iterator was created before; it rests, and goes on
            pause();
            let mut k = 0;
            loop {
                let x = if kind == 12 { lazy.nth(0) } else { lazy.next() };
                match x {
                    Some(x) => seen.push(x),
                    None => break,
                }
                k += 1;
                if k % 5 == 0 {
                    pause();
                }
            }
            seen
        }
        _ => unsafe { v.v_iter_ref() },
    }
}

/// comparisons exist for the default storage only; returns what was visited and whether equality was reported
fn compare(vec: &ConcurrentVec<Rec>, win: Option<(usize, usize)>, kind: usize, m: usize, dummies: &ConcurrentVec<Rec>, arr: &[Rec]) -> (Vec<u64>, bool) {
    let (r, s) = recorded(true, || match (win, kind) {
        (None, 13) => *vec == dummies.slice(..m),
        (None, 14) => dummies.slice(..m) == *vec,
        (None, _) => *vec == arr[..m],
        (Some((a, b)), 13) => vec.slice(a..b) == dummies.slice(..m),
        (Some((a, b)), 14) => dummies.slice(..m) == vec.slice(a..b),
        (Some((a, b)), _) => vec.slice(a..b) == arr[..m],
    });
    let mut out = vec![];
    for (k, (x, y)) in s.iter().enumerate() {
        let (mine, other) = if kind == 14 { (*y, *x) } else { (*x, *y) };
        check!(other == (FAKE | 1 << 63) - k as u64, "{}: value {mine:x} is compared with {other:x}, which is not the one at {k}", KINDS[kind]);
        out.push(mine);
    }
    (out, r)
}

const CAP: usize = if cfg!(miri) { 64 } else { 2048 };
struct Versions {
    started: Vec<AtomicU64>,
    done: Vec<AtomicU64>,
}

macro_rules! lazy {
    ($v:expr, $kind:expr) => {
        match $kind {
            10 => Box::new($v.iter().map(|e| e.map(|x| x.val()))) as Box<dyn Iterator<Item = u64> + '_>,
            11 => Box::new($v.iter_cloned().map(|x| x.val())),
            12 => Box::new($v.map(|x| {
                chaos_point();
                x.val()
            })),
            _ => Box::new(std::iter::empty()),
        }
    };
}

fn traverse<P: Store<Rec> + 'static>(ctx: &mut Ctx, rng: &mut Rng) {
    // without writers the values can be referred to directly
    let with_writers = rng.chance(3, 4);
    let writers = if with_writers { rng.range(1, ctx.size(3, 2, 1)) } else { 0 };
    let growers = rng.range(if with_writers { 0 } else { 1 }, ctx.size(3, 2, 1));
    let visitors = rng.range(1, ctx.size(3, 2, 1));
    let pre = ctx.size(60, 30, 6);
    let pre = match rng.chance(1, 3) {
        true => ctx.rare(rng, pre, 5000),
        false => pre,
    };
    let pre = rng.below(pre);
    let each = rng.range(4, ctx.size(120, 60, 8));
    let batch = rng.range(1, ctx.size(12, 8, 4));
    let vec = P::build(rng, pre + growers * each * batch + 4);
    for _ in 0..pre {
        vec.push_for_idx(|i| Rec::make((i as u64) << POS));
    }
    let top = pre + growers * each * batch + 2;
    let dummies: ConcurrentVec<Rec> = (0..top as u64).map(|k| Rec::make((FAKE | 1 << 63) - k)).collect();
    let arr: Vec<Rec> = (0..top as u64).map(|k| Rec::make((FAKE | 1 << 63) - k)).collect();
    let slow = rng.chance(1, 2);
    set_chaos(*rng.pick(&[0, 40, 120]));
    let ver = Versions { started: (0..CAP).map(|_| AtomicU64::new(0)).collect(), done: (0..CAP).map(|_| AtomicU64::new(0)).collect() };
    let running = AtomicUsize::new(writers + growers);
    // (traversals, visited, racing positions, grown during the traversal, signature)
    type Out = [u64; 5];
    let mut jobs: Vec<Job<Out>> = vec![];
    for t in 0..writers {
        let (vec, running, ver) = (&vec, &running, &ver);
        let mut rng = rng.fork(t as u64);
        jobs.push(job!(move |_| {
            for k in 0..each {
                let n = vec.len().min(CAP);
                if n == 0 {
                    continue;
                }
                let i = (rng.below(n) / writers) * writers + t;
                if i >= n {
                    continue;
                }
                let v = ver.done[i].load(Relaxed) + 1;
                ver.started[i].store(v, SeqCst);
                let x = (i as u64) << POS | v;
                op("write", || match k % 4 {
                    0 => vec[i].set(Rec::make(x)),
                    1 => vec[i].update(|y| y.put(x)),
                    2 => vec.slice(i..=i).fill(Rec::make(x)),
                    _ => {
                        vec[i].replace(Rec::make(x));
                    }
                });
                ver.done[i].store(v, SeqCst);
            }
            running.fetch_sub(1, Relaxed);
            [0u64; 5]
        }));
    }
    for g in 0..growers {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(30 + g as u64);
        jobs.push(job!(move |_| {
            for _ in 0..each {
                let wait = || {
                    if slow {
                        user(chaos_point)
                    }
                };
                if rng.bool() {
                    op("push", || {
                        vec.push_for_idx(|i| {
                            wait();
                            Rec::make((i as u64) << POS)
                        })
                    });
                } else {
                    let n = rng.below(batch + 1);
                    op("extend", || {
                        vec.extend_for_idx(
                            |b| ExactIter {
                                it: (b..b + n).map(|i| {
                                    wait();
                                    Rec::make((i as u64) << POS)
                                }),
                                n,
                            },
                            n,
                        )
                    });
                }
            }
            running.fetch_sub(1, Relaxed);
            [0u64; 5]
        }));
    }
    let (dummies, arr) = (&dummies, &arr);
    for o in 0..visitors {
        let (vec, running, ver) = (&vec, &running, &ver);
        let mut rng = rng.fork(60 + o as u64);
        jobs.push(job!(move |_| {
            let mut out = [0u64; 5];
            let mut before = vec![0u64; CAP];
            let pause = || {
                user(chaos_point);
                std::thread::yield_now();
            };
            let dbl = (vec as &dyn Any).downcast_ref::<ConcurrentVec<Rec>>();
            let mut end = false;
            while !end && (!MIRI || out[0] < 8) {
                end = running.load(Relaxed) == 0;
                let lo = vec.len();
                let win = match rng.below(3) {
                    0 => {
                        let (a, b) = (rng.below(lo + 1), rng.below(lo + 1));
                        Some((a.min(b), a.max(b)))
                    }
                    _ => None,
                };
                for i in 0..lo.min(CAP) {
                    before[i] = ver.done[i].load(SeqCst);
                }
                let kinds = if writers == 0 { KINDS.len() } else { KINDS.len() - 1 };
                let kind = match (rng.below(kinds), dbl) {
                    (k, None) if (13..=15).contains(&k) => 0,
                    (k, _) => k,
                };
                let how = KINDS[kind];
                // the length of the other operand of a comparison
                let m = match win {
                    Some((a, b)) => b - a,
                    None => (lo + rng.below(3)).min(top),
                };
                let (vals, eq) = op(how, || match (win, dbl) {
                    (_, Some(d)) if (13..=15).contains(&kind) => {
                        let (v, r) = compare(d, win, kind, m, dummies, arr);
                        (v, Some(r))
                    }
                    (None, _) => (visit(vec, kind, &mut *lazy!(vec, kind), &pause), None),
                    (Some((a, b)), _) => {
                        let s = vec.slice(a..b);
                        pause();
                        let r = visit(&s, kind, &mut *lazy!(s, kind), &pause);
                        (r, None)
                    }
                });
                let hi = vec.len();
                let w = || match win {
                    None => format!("{}: {how} of the vec", P::NAME),
                    Some((a, b)) => format!("{}: {how} of the slice {a}..{b}", P::NAME),
                };
                let a = win.map_or(0, |w| w.0);
                if kind == 16 && win.is_none() {
                    // may go on behind an unfinished growth call
                    let p: Vec<usize> = vals.iter().map(|v| (v >> POS) as usize).collect();
                    let k = p.iter().enumerate().take_while(|(k, p)| k == *p).count();
                    check!(k >= lo, "{} does not visit position {k}, while the length was {lo} before", w());
                    check!(p.windows(2).all(|x| x[0] < x[1]), "{} does not visit positions in order", w());
                    check!(vals.iter().all(|v| v & 0xffff_ffff == 0), "{} gives values that nobody stored", w());
                    out[0] += 1;
                    out[1] += k as u64;
                    continue;
                }
                for (k, v) in vals.iter().enumerate() {
                    let (p, v) = ((v >> POS) as usize, v & 0xffff_ffff);
                    check!(p == a + k, "{} visits position {p} in step {k}, expected {}", w(), a + k);
                    if p < CAP {
                        let max = ver.started[p].load(SeqCst);
                        let min = if p < lo { before[p] } else { 0 };
                        check!(min <= v && v <= max, "{} gives version {v} of position {p}, while version {min} was complete before it began and {max} the last one begun at its end", w());
                        out[2] += (max > min) as u64;
                    }
                }
                let n = vals.len();
                // without equality the comparison may end early, and there is none if the lengths differ
                match (win, eq) {
                    (_, Some(r)) if !r || n != m => {
                        check!(!r, "{} reports equality with a sequence of length {m} after {n} pairs", w());
                        check!(win.is_none() && !(lo == m && hi == m), "{} reports a difference from an equal sequence of length {m}", w());
                        out[0] += 1;
                        continue;
                    }
                    _ => {}
                }
                match win {
                    None => check!(lo <= n && n <= hi, "{} visits {n} elements, while the length was {lo} before and {hi} after it", w()),
                    Some((a, b)) => check!(n == b - a, "{} visits {n} elements", w()),
                }
                out[0] += 1;
                out[1] += n as u64;
                out[3] += (hi > lo) as u64;
                out[4] = hash2(out[4], hash2(kind as u64, n as u64));
            }
            out
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let s = r.iter().fold([0u64; 5], |a, b| [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3], hash2(a[4], b[4])]);
    ctx.count("traversals", s[0]);
    ctx.count("visited", s[1]);
    ctx.count("positions_written_during_a_traversal", s[2]);
    ctx.count("traversals_during_growth", s[3]);
    ctx.sig(s[4]);
    ctx.sample(|| format!("{}: {} traversals of {} positions, {} of them during growth, {} positions were written meanwhile, final length {}", P::NAME, s[0], s[1], s[3], s[2], vec.len()));
}
fn traverse_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => traverse::<Dbl<Rec>>(ctx, rng),
        _ => any_store2!(rng, traverse, Rec, (ctx, rng)),
    }
}

/// operations which need an element that another thread holds at that moment
fn held(ctx: &mut Ctx, rng: &mut Rng) {
    busy_any(ctx, rng, &busy::TRAVERSALS);
}

fn main() {
    run("C21", &[Scenario::new("traverse", 4, traverse_any).miri(), Scenario::new("held", 1, held).miri(), Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C21"))]);
}
