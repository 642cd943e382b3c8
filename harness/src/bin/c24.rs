//! Capacities: what is promised by them and how they change.
use mon::growth::*;
use mon::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// the two capacities are looked at by all threads while the vec grows
fn observed<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let growers = rng.range(1, ctx.size(5, 4, 2));
    let observers = rng.range(1, ctx.size(3, 2, 1));
    let cfg = GrowCfg { batches: *rng.pick(&[0, 30, 100]), max_batch: ctx.size(60, 20, 4), slow_items: rng.bool() };
    let calls = rng.range(2, ctx.size(60, 30, 4));
    let plans: Vec<_> = (0..growers).map(|_| plan(rng, &cfg, calls)).collect();
    let pre = rng.skewed(ctx.size(40, 20, 3));
    let need = plans.iter().map(|p| plan_size(p)).sum::<usize>() + pre;
    let vec = match rng.bool() {
        true => P::tight(rng, need).unwrap_or_else(|| P::build(rng, need)),
        false => P::build(rng, need),
    };
    let max = vec.maximum_capacity();
    check!(max >= need && vec.capacity() <= max, "{}: a vec for {need} elements has the capacities {} and {max}", P::NAME, vec.capacity());
    let init = prefill(&vec, pre);
    let start = vec.capacity();
    set_chaos(*rng.pick(&[0, 40, 120]));
    let running = AtomicUsize::new(growers);
    // largest capacity that somebody told about, with the happens-before edge of an atomic
    let told = AtomicUsize::new(start);
    let (vecr, runningr, toldr) = (&vec, &running, &told);
    let look = move |last: &mut usize, who: &str| {
        let t = toldr.load(Acquire);
        let n = op("len", || vecr.len());
        let c = op("capacity", || vecr.capacity());
        let m = op("maximum_capacity", || vecr.maximum_capacity());
        check!(m == max, "{}: the maximum capacity {max} became {m} during growth", P::NAME);
        check!(c <= max, "{}: the capacity {c} exceeds the maximum {max}", P::NAME);
        check!(c >= n, "{}: the capacity {c} is less than the length {n} seen before", P::NAME);
        check!(c >= *last && c >= t, "{}: the capacity became {c}, {who} saw {last} before and another thread {t}", P::NAME);
        toldr.fetch_max(c, AcqRel);
        let changed = c > *last;
        *last = c;
        changed
    };
    type Out = (Vec<Grown>, u64, u64);
    let mut jobs: Vec<Job<Out>> = vec![];
    for (t, plan) in plans.iter().enumerate() {
        jobs.push(job!(move |_| {
            let (mut k, mut last, mut looks, mut changes) = (0, start, 0u64, 0u64);
            let ops = plan
                .iter()
                .map(|&(kind, n)| {
                    let g = grow_once(vecr, kind, n, cfg.slow_items, t, || {
                        k += 1;
                        uniq(t, k)
                    });
                    changes += look(&mut last, "a grower") as u64;
                    looks += 1;
                    check!(
                        g.vals.is_empty() || last >= g.begin + g.vals.len(),
                        "{}: the capacity is {last} after {} of {} items at {}", P::NAME, g.kind, g.vals.len(), g.begin
                    );
                    g
                })
                .collect();
            runningr.fetch_sub(1, Relaxed);
            (ops, looks, changes)
        }));
    }
    for _ in 0..observers {
        jobs.push(job!(move |_| {
            let (mut last, mut looks, mut changes) = (start, 0u64, 0u64);
            loop {
                let end = runningr.load(Relaxed) == 0;
                changes += look(&mut last, "an observer") as u64;
                looks += 1;
                if end || (MIRI && looks > 10) {
                    break;
                }
            }
            (vec![], looks, changes)
        }));
    }
    let outs = par(rng.next(), jobs);
    set_chaos(0);
    let (mut ops, mut changes) = (vec![], 0);
    for (g, l, c) in outs {
        ops.extend(g);
        ctx.count("looks_at_capacities", l);
        changes += c;
    }
    ctx.count("changes_seen", changes);
    let what = format!("{} {} {growers} growers", P::NAME, T::NAME);
    check_growth(&what, &contents(&vec), &init, &ops);
    // what is left can be filled to the last position
    let n = vec.len();
    if max - n <= 3000 {
        for i in n..max {
            let p = vec.push(T::make(1));
            check!(p == i, "{what}: push {i} of {max} returned {p}");
        }
        check!(vec.len() == max && vec.capacity() == max, "{what}: length {} and capacity {} of a full vec of {max}", vec.len(), vec.capacity());
        ctx.count("filled_completely", 1);
        refused(ctx, rng, &what, &vec);
    }
    let h = hash2(hash2(need as u64, max as u64), hash2(hash_str(P::NAME), changes));
    if changes > 0 {
        ctx.sig(h);
    }
    ctx.sample(|| format!("{what}: {need} elements, maximum {max}, {changes} changes seen"));
}
fn observed_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => any_store!(rng, observed, u64, (ctx, rng)),
        _ => any_store!(rng, observed, String, (ctx, rng)),
    }
}

/// growth beyond the limit of a full vec is refused and leaves the capacities
fn refused<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng, what: &str, vec: &ConcurrentVec<T, P>) {
    let max = vec.maximum_capacity();
    for _ in 0..rng.range(1, 3) {
        let n = rng.range(1, 4);
        let kind = rng.below(3);
        let r = match kind {
            0 => panics(|| vec.push(T::make(2))).is_some(),
            1 => panics(|| vec.extend((0..n).map(|_| T::make(2)).collect::<Vec<_>>())).is_some(),
            _ => panics(|| vec.push_for_idx(|_| T::make(2))).is_some(),
        };
        check!(!r, "{what}: growth (kind {kind}, {n}) of a full vec of {max} was not refused");
        let (l, c, m) = (vec.len(), vec.capacity(), vec.maximum_capacity());
        check!(l == max && c == max && m == max, "{what}: a full vec of {max} has the length {l} and the capacities {c} and {m} after refused growth");
        ctx.count("refused_growth", 1);
    }
}

/// what the constructors promise
fn made(ctx: &mut Ctx, rng: &mut Rng) {
    fn fresh<P: Store<u64>>(w: &str, v: &ConcurrentVec<u64, P>, min: usize, exact: Option<usize>) {
        check!(v.is_empty() && v.len() == 0 && v.get(0).is_none() && v.iter().next().is_none(), "{w} is not empty");
        let (c, m) = (v.capacity(), v.maximum_capacity());
        check!(c <= m && m >= min, "{w} has the capacity {c} and the maximum capacity {m}");
        if let Some(x) = exact {
            check!(m == x, "{w} has the maximum capacity {m}");
        }
    }
    const LARGE: usize = 1 << 31;
    let n = rng.skewed(ctx.size(300, 200, 20));
    let e = rng.range(1, ctx.size(9, 7, 4));
    let f = rng.range(1, ctx.size(20, 10, 4));
    let kind = rng.below(8);
    let mut full = None;
    match kind {
        0 => fresh("ConcurrentVec::new()", &ConcurrentVec::<u64>::new(), LARGE, None),
        1 => fresh("ConcurrentVec::default()", &ConcurrentVec::<u64>::default(), LARGE, None),
        2 => fresh("with_doubling_growth()", &ConcurrentVec::<u64>::with_doubling_growth(), LARGE, None),
        3 => {
            let v = ConcurrentVec::with_linear_growth(e, f);
            fresh(&format!("with_linear_growth({e}, {f})"), &v, 0, Some(f << e));
            full = Some((filled(&v), f << e));
            refused(ctx, rng, "a full linear vec", &v);
        }
        4 => {
            let v = ConcurrentVec::with_fixed_capacity(n);
            let w = format!("with_fixed_capacity({n})");
            fresh(&w, &v, 0, Some(n));
            check!(v.capacity() == n, "{w} has the capacity {}", v.capacity());
            let (p, c) = (v.get(0).is_none(), heap_balance().0);
            full = Some((filled(&v), n));
            check!(p && heap_balance().0 == c && v.capacity() == n, "{w} allocated while it was filled");
            refused(ctx, rng, &w, &v);
        }
        5 => {
            // from a pinned vec: the capacity of that vec
            let mut p: SplitVec<ConcurrentElement<u64>, Linear> = SplitVec::with_linear_growth_and_fragments_capacity(e, f);
            let n = n.min(f << e);
            for i in 0..n {
                p.push(ConcurrentOption::some(i as u64).into());
            }
            let v = ConcurrentVec::from(p);
            check!(v.len() == n && v.maximum_capacity() == f << e && v.capacity() >= n && v.capacity() <= f << e, "from a linear split vec of {n} of {} elements: {} {} {}", f << e, v.len(), v.capacity(), v.maximum_capacity());
            full = Some((n + filled(&v), f << e));
        }
        6 => {
            let mut p: FixedVec<ConcurrentElement<u64>> = FixedVec::new(n);
            let k = rng.below(n + 1);
            for i in 0..k {
                p.push(ConcurrentOption::some(i as u64).into());
            }
            let v = ConcurrentVec::from(p);
            check!(v.len() == k && v.maximum_capacity() == n && v.capacity() == n, "from a fixed vec of {k} of {n} elements: {} {} {}", v.len(), v.capacity(), v.maximum_capacity());
            full = Some((k + filled(&v), n));
        }
        _ => {
            let v: ConcurrentVec<u64> = (0..n as u64).collect();
            let c = v.clone();
            for (w, v) in [("collected", &v), ("cloned", &c)] {
                check!(v.len() == n && v.capacity() >= n && v.capacity() <= v.maximum_capacity() && v.maximum_capacity() >= LARGE, "{w} vec of {n}: {} {} {}", v.len(), v.capacity(), v.maximum_capacity());
            }
        }
    }
    if let Some((n, max)) = full {
        check!(n == max, "a vec with the maximum capacity {max} took {n} elements");
        ctx.count("filled_completely", 1);
    }
    ctx.count("constructed", 1);
    ctx.sig(hash2(kind as u64, if kind < 3 { 0 } else { hash2(n as u64, hash2(e as u64, f as u64)) }));
    ctx.sample(|| format!("constructor {kind}, {n} elements, linear ({e}, {f})"));
}
/// pushes until the limit; the number of elements that were taken
fn filled<P: Store<u64>>(v: &ConcurrentVec<u64, P>) -> usize {
    let n = v.len();
    let mut k = 0;
    let (mut c, mut last) = (v.capacity(), 0);
    while n + k < v.maximum_capacity() {
        let p = v.push(k as u64);
        check!(p == n + k, "push {k} onto {n} elements returned {p}");
        k += 1;
        let x = v.capacity();
        check!(x >= c && x > p && x <= v.maximum_capacity(), "the capacity {c} became {x} by the push at {p}");
        // growth does not happen while there is room
        check!(x == c || p == c, "the capacity {c} became {x} by the push at {p}");
        last = if x == c { last } else { p };
        c = x;
    }
    let _ = last;
    k
}

/// histories with exclusive operations: the maximum changes by reserving only
fn histories<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = ctx.size(300, 200, 30);
    let n = ctx.rare(rng, n, 4000);
    let mut s = seq::Sut::<T, P>::new(rng, n);
    let steps = rng.range(3, ctx.size(60, 40, 10));
    let mut h = 0;
    for _ in 0..steps {
        let (c, m) = (s.vec.capacity(), s.vec.maximum_capacity());
        let excl = rng.chance(1, 5);
        if excl && rng.bool() {
            let want = match rng.below(3) {
                0 => rng.below(m.min(4000) + 1),
                1 => m.min(4000) + rng.below(40),
                _ => s.model.len() + rng.below(300),
            };
            let r = s.vec.reserve_maximum_capacity(want);
            let m2 = s.vec.maximum_capacity();
            check!(r == m2 && r >= want && r >= m, "{}: reserving {want} returned {r}; the maximum was {m} and is {m2}", s.what());
            ctx.count("reserves", 1);
        } else if excl {
            s.vec.clear();
            s.model.clear();
            let m2 = s.vec.maximum_capacity();
            check!(m2 == m, "{}: the maximum capacity {m} became {m2} by clear", s.what());
            ctx.count("clears", 1);
        } else {
            s.step(rng, &[0, 1, 2, 3, 4, 6, 8], 20);
            let (c2, m2) = (s.vec.capacity(), s.vec.maximum_capacity());
            check!(m2 == m && c2 >= c, "{}: the capacities {c} and {m} became {c2} and {m2}", s.what());
        }
        let (c, m, n) = (s.vec.capacity(), s.vec.maximum_capacity(), s.vec.len());
        check!(n == s.model.len() && n <= c && c <= m, "{}: length {n} instead of {}, capacity {c}, maximum {m}", s.what(), s.model.len());
        h = hash2(h, hash2(c as u64, n as u64));
        ctx.count("looks_at_capacities", 1);
    }
    s.verify();
    ctx.sig(h);
}
fn histories_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => any_store!(rng, histories, u64, (ctx, rng)),
        _ => any_store!(rng, histories, String, (ctx, rng)),
    }
}

fn main() {
    run(
        "C24",
        &[
            Scenario::new("observed", 3, observed_any).miri(),
            Scenario::new("made", 1, made).miri().seq(),
            Scenario::new("histories", 1, histories_any).miri().seq(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C24")).seq(),
        ],
    );
}
