use mon::growth::*;
use mon::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

thread_local! {
    static PAIRS: RefCell<Vec<(u64, u64)>> = const { RefCell::new(vec![]) };
}

/// a value whose comparison records the two values which were compared: an atomic snapshot of two elements
#[derive(Clone, Debug)]
struct Snap(Wide);
impl PartialEq for Snap {
    fn eq(&self, o: &Self) -> bool {
        let (a, b) = (self.0.val(), o.0.val());
        user(chaos_point);
        check!(self.0.val() == a && o.0.val() == b, "values changed while they were compared");
        PAIRS.with(|p| p.borrow_mut().push((a, b)));
        a == b
    }
}
impl Pay for Snap {
    const NAME: &'static str = "snap";
    fn make(v: u64) -> Self {
        Snap(Wide::make(v))
    }
    fn val(&self) -> u64 {
        self.0.val()
    }
}

/// swaps of (i, j) by one of the ways
fn swap<T, P: Store<T>>(vec: &ConcurrentVec<T, P>, i: usize, j: usize, rng: &mut Rng) -> bool {
    let lo = i.min(j);
    let hi = i.max(j);
    match rng.below(4) {
        0 | 1 => vec.swap(i, j),
        2 => {
            let a = rng.below(lo + 1);
            vec.slice(a..=hi).swap(i - a, j - a)
        }
        _ => {
            let a = rng.below(lo + 1);
            let b = rng.below(lo - a + 1);
            let s = vec.slice(a..);
            let t = s.slice(b..);
            t.swap(i - a - b, j - a - b)
        }
    }
}

/// random swaps with updates and reads: values are only permuted, no update is lost, every call completes
fn permute<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(8, 6, 3));
    let n = *rng.pick(&[2, 2, 3, 4, 6, 20]);
    let calls = rng.range(3, ctx.size(200, 80, 10));
    let grow = rng.chance(1, 4);
    // the elements may be far from each other
    let apart = rng.chance(2, 5) && !MIRI;
    let stride = if apart { *rng.pick(&[2, 70, 1100, 5000, 5000, 5000]) } else { 1 };
    let calls = if stride > 1000 { calls / 3 + 1 } else { calls };
    let total = (n - 1) * stride + 1;
    let vec = P::build(rng, total + if grow { calls } else { 0 });
    // value = identity and count of updates
    for k in 0..total {
        vec.push(T::make(if k % stride == 0 { ((k / stride) as u64) << 32 } else { (1 << 60) + k as u64 }));
    }
    set_chaos(*rng.pick(&[0, 40, 120]));
    let pattern = rng.below(4);
    let jobs: Vec<Job<(Vec<u64>, u64)>> = (0..threads)
        .map(|t| {
            let vec = &vec;
            let mut rng = rng.fork(t as u64);
            job!(move |_| {
                tok_chaos(rng.bool());
                let mut counts = vec![0u64; n];
                let mut swaps = 0u64;
                for _ in 0..calls {
                    let (i, j) = match pattern {
                        // opposite orders
                        0 => if t % 2 == 0 { (0, 1) } else { (1, 0) },
                        // cycles
                        1 => (t % n, (t + 1) % n),
                        _ => (rng.below(n), rng.below(n)),
                    };
                    match rng.below(10) {
                        0..=4 => {
                            let ok = op("swap", || swap(vec, i * stride, j * stride, &mut rng));
                            check!(ok, "{}: swap({i},{j}) of {n} elements returned false", P::NAME);
                            swaps += 1;
                        }
                        5 => {
                            let ok = op("swap with itself", || swap(vec, i * stride, i * stride, &mut rng));
                            check!(ok, "{}: swap({i},{i}) of {n} elements returned false", P::NAME);
                        }
                        6 | 7 => op("update", || {
                            reach(vec, i * stride, rng.below(WAYS), 5, |e| e.update(|x| {
                                let v = x.val();
                                counts[(v >> 32) as usize] += 1;
                                x.put(v + 1);
                            }))
                        }),
                        8 => {
                            let v = op("read", || reach(vec, j * stride, rng.below(WAYS), 3, |e| e.map(|x| x.val())));
                            check!(((v >> 32) as usize) < n, "{}: a read gives the unknown value {v:x}", P::NAME);
                        }
                        _ => {
                            // both positions are within the vec or the slice, or nothing happens
                            let len = total;
                            let (i, j) = (i * stride, j * stride);
                            let s = vec.slice(..len);
                            let bad = op("swap out of bounds", || s.swap(i, len + rng.below(3)) | s.swap(len, j));
                            check!(!bad, "{}: a swap beyond the end of a slice of {len} returned true", P::NAME);
                            let bad = op("swap out of bounds", || vec.swap(i, usize::MAX) | vec.swap(total + calls + 5, i));
                            check!(!bad, "{}: a swap beyond the end of the vec returned true", P::NAME);
                        }
                    }
                    if grow && t == 0 {
                        vec.push(T::make(u64::MAX >> 1));
                    }
                }
                (counts, swaps)
            })
        })
        .collect();
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let mut expect: Vec<u64> = (0..n).map(|k| ((k as u64) << 32) + r.iter().map(|x| x.0[k]).sum::<u64>()).collect();
    let all = contents(&vec);
    for (k, v) in all[..total].iter().enumerate().filter(|(k, _)| k % stride != 0) {
        check!(*v == (1 << 60) + k as u64, "{}: element {k} became {v:x} although nobody touched it", P::NAME);
    }
    let order: Vec<u64> = all[..total].iter().copied().step_by(stride).collect();
    let mut found = order.clone();
    expect.sort();
    found.sort();
    check!(found == expect, "{}: {threads} threads: the values are {found:x?}, expected a permutation of {expect:x?}", P::NAME);
    let swaps: u64 = r.iter().map(|x| x.1).sum();
    ctx.count("concurrent_swaps", swaps);
    ctx.count("updates_between_swaps", expect.iter().map(|v| v & 0xffff_ffff).sum());
    ctx.sig(order.iter().fold(swaps, |h, v| hash2(h, *v)));
    ctx.sample(|| format!("{} {} {threads} threads, {swaps} swaps of {n} elements, pattern {pattern}: final order {:?}", P::NAME, T::NAME, order.iter().map(|v| v >> 32).collect::<Vec<_>>()));
    drop(vec);
    check!(tok_live() == 0, "{}: {} values are alive after everything was dropped", P::NAME, tok_live());
}
fn permute_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => any_store!(rng, permute, u64, (ctx, rng)),
        1 => any_store!(rng, permute, Wide, (ctx, rng)),
        _ => any_store!(rng, permute, Tok, (ctx, rng)),
    }
}

/// one thread swaps, so that the contents of every version are known; observers take snapshots of one or
/// two elements, which must be those of a version that was current during the observation
fn atomic(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 4);
    let swaps = rng.range(3, ctx.size(300, 100, 8));
    let observers = rng.range(1, ctx.size(5, 4, 2));
    let pre = rng.below(9);
    let vec: ConcurrentVec<Snap> = ConcurrentVec::new();
    for k in 0..pre {
        vec.push(Snap::make(1000 + k as u64));
    }
    for k in 0..n {
        vec.push(Snap::make(k as u64));
    }
    set_chaos(*rng.pick(&[0, 60, 150]));
    let running = AtomicUsize::new(1);
    struct Obs {
        t0: u64,
        t1: u64,
        i: usize,
        j: usize,
        x: u64,
        y: u64,
    }
    enum Out {
        S(Vec<(u64, u64, usize, usize)>),
        O(Vec<Obs>),
    }
    let mut jobs: Vec<Job<Out>> = vec![];
    {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(1);
        jobs.push(job!(move |_| {
            let mut r = vec![];
            for _ in 0..swaps {
                let (i, j) = (rng.below(n), rng.below(n));
                let t0 = now();
                op("swap", || swap(vec, pre + i, pre + j, &mut rng));
                r.push((t0, now(), i, j));
                chaos_point();
            }
            running.store(0, Relaxed);
            Out::S(r)
        }));
    }
    for o in 0..observers {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(100 + o as u64);
        jobs.push(job!(move |_| {
            let mut r = vec![];
            while running.load(Relaxed) > 0 && r.len() < ctx_max() {
                let i = rng.below(n);
                let j = (i + rng.range(1, n - 1)) % n;
                let t0 = now();
                if rng.below(4) == 0 {
                    let x = op("map", || vec[pre + i].map(|x| x.val()));
                    r.push(Obs { t0, t1: now(), i, j: i, x, y: x });
                } else {
                    PAIRS.with(|p| p.borrow_mut().clear());
                    let eq = op("compare", || match rng.below(3) {
                        0 => vec[pre + i] == vec[pre + j],
                        1 => vec.slice(pre + i..=pre + i) == vec.slice(pre + j..=pre + j),
                        _ => vec.slice(pre + i..)[0] == vec.slice(..=pre + j)[pre + j],
                    });
                    let t1 = now();
                    check!(!eq, "two elements with different values compared equal during swaps");
                    let (x, y) = match PAIRS.with(|p| p.borrow().last().copied()) {
                        Some(p) => p,
                        None => violation("a comparison of two elements did not compare their values"),
                    };
                    r.push(Obs { t0, t1, i, j, x, y });
                }
            }
            Out::O(r)
        }));
    }
    let (mut hist, mut obs) = (vec![], vec![]);
    for o in par(rng.next(), jobs) {
        match o {
            Out::S(s) => hist = s,
            Out::O(o) => obs.extend(o),
        }
    }
    set_chaos(0);
    let mut versions: Vec<Vec<u64>> = vec![(0..n as u64).collect()];
    for (_, _, i, j) in &hist {
        let mut v = versions[versions.len() - 1].clone();
        v.swap(*i, *j);
        versions.push(v);
    }
    let mut h = 0;
    let mut overlapping = 0;
    for o in &obs {
        // version v is possibly current from the call of swap v-1 to the return of swap v
        let lo = hist.partition_point(|s| s.1 < o.t0);
        let hi = hist.partition_point(|s| s.0 <= o.t1);
        // the operand order of the comparison may be either for the recorded pair
        let ok = (lo..=hi).any(|v| {
            let p = &versions[v];
            p[o.i] == o.x && p[o.j] == o.y || p[o.i] == o.y && p[o.j] == o.x
        });
        check!(
            ok,
            "swap is not atomic: elements {} and {} were seen as {} and {} at the same time, while the contents during the observation were {:?}",
            o.i, o.j, o.x, o.y, &versions[lo..=hi.min(lo + 6)]
        );
        overlapping += (hi > lo) as u64;
        h = hash2(h, hash2(o.x, o.y));
    }
    let c = contents(&vec);
    check!(c[pre..] == versions[versions.len() - 1][..], "the final contents {:?} are not what the sequence of swaps gives", &c[pre..]);
    ctx.count("atomic_snapshots", obs.len() as u64);
    ctx.count("snapshots_overlapping_a_swap", overlapping);
    if overlapping > 0 {
        ctx.sig(h);
    }
    ctx.sample(|| format!("{swaps} swaps of {n} elements, {} snapshots, {overlapping} overlapping a swap", obs.len()));
}
fn ctx_max() -> usize {
    if MIRI { 12 } else { 5000 }
}

/// sequential: every pair of positions in and out of bounds of vecs and (nested) slices
fn bounds<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.below(ctx.size(30, 20, 6));
    let vec = P::build(rng, n + 1);
    let mut model = prefill(&vec, n);
    for _ in 0..ctx.size(20, 10, 3) {
        let a = rng.below(n + 1);
        let b = a + rng.below(n - a + 1);
        let c = rng.below(b - a + 1);
        let d = c + rng.below(b - a - c + 1);
        let at = |rng: &mut Rng| match rng.chance(1, 8) {
            true => rng.beyond(n),
            false => rng.below(n + 3),
        };
        let (i, j) = (at(rng), at(rng));
        let (ok, base, len) = match rng.below(3) {
            0 => (vec.swap(i, j), 0, n),
            1 => (vec.slice(a..b).swap(i, j), a, b - a),
            _ => (vec.slice(a..b).slice(c..d).swap(i, j), a + c, d - c),
        };
        let expect = i < len && j < len;
        check!(ok == expect, "{}: swap({i},{j}) in a window of {len} elements at {base} returned {ok}", P::NAME);
        if ok {
            model.swap(base + i, base + j);
        }
        let c = contents(&vec);
        check!(c == model, "{}: after swap({i},{j}) in a window of {len} elements at {base}: {:?}, expected {:?}", P::NAME, seq::diff(&c, &model), seq::diff(&model, &c));
        ctx.count("bounds_checked", 1);
        ctx.sig(hash2(hash2(n as u64, base as u64), hash2(i as u64, hash2(j as u64, len as u64))));
    }
}
fn bounds_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => any_store!(rng, bounds, u64, (ctx, rng)),
        _ => any_store!(rng, bounds, Tok, (ctx, rng)),
    }
}

/// operations which need an element that another thread holds at that moment
fn held(ctx: &mut Ctx, rng: &mut Rng) {
    busy_any(ctx, rng, &busy::SWAPS);
}

fn main() {
    run(
        "C09",
        &[
            Scenario::new("permute", 4, permute_any).miri(),
            Scenario::new("atomic", 3, atomic).miri(),
            Scenario::new("bounds", 1, bounds_any).miri().seq(),
            Scenario::new("held", 1, held).miri(),
            Scenario::new("gaps", 1, gaps_any).miri().seq(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C09")).seq(),
        ],
    );
}
