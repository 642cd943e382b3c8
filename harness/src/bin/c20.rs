use mon::growth::*;
use mon::seq::*;
use mon::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// a growth request as the storage saw it: (allocated capacity, requested capacity), and the call which made it
type Req = (usize, usize, usize, usize);

/// requests must come from the owner of the first position that is not allocated
fn owned(what: &dyn Fn() -> String, max: usize, begin: usize, n: usize, log: &[(usize, usize)], reqs: &mut Vec<Req>) {
    for &(old, new) in log {
        check!(
            n > 0 && begin <= old && old < begin + n,
            "{}: growth from {old} to {new} was requested by the owner of {begin}..{} and not by the owner of the boundary",
            what(),
            begin + n
        );
        check!(new > old && new <= max, "{}: growth from {old} to {new} was requested with maximum capacity {max}", what());
        reqs.push((old, new, begin, n));
    }
}

/// each boundary is crossed once
fn chain(what: &str, reqs: &mut [Req]) {
    reqs.sort();
    for w in reqs.windows(2) {
        check!(w[0].0 < w[1].0 && w[0].1 <= w[1].0, "{what}: the growth requests {:?} and {:?} overlap", w[0], w[1]);
    }
}

/// concurrent growth, reads and updates on a monitored storage; in some rounds up to and beyond its limit
fn contract<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(8, 5, 3));
    let calls = rng.range(3, ctx.size(80, 40, 5));
    let cfg = GrowCfg {
        batches: *rng.pick(&[0, 30, 100]),
        max_batch: rng.range(1, ctx.size(40, 20, 6)),
        slow_items: rng.chance(1, 3),
    };
    let plans: Vec<_> = (0..threads).map(|_| plan(rng, &cfg, calls)).collect();
    let total: usize = plans.iter().map(|p| plan_size(p)).sum();
    let limit = rng.chance(1, 3);
    let (vec, full) = match limit {
        true => {
            let need = (total / 2).max(1);
            match P::tight(rng, need) {
                Some(v) => (v, true),
                None => (P::build(rng, total), false),
            }
        }
        false => (P::build(rng, total), false),
    };
    let max = vec.maximum_capacity();
    let greedy = rng.chance(1, 3);
    GREED.store(if greedy { *rng.pick(&[2, 9, 200]) } else { 0 }, Relaxed);
    set_chaos(*rng.pick(&[20, 80, 180]));
    let before = storage_counters();
    let running = AtomicUsize::new(threads);
    let w = || format!("{} {} {threads} threads {}", P::NAME, T::NAME, if full { "beyond the limit" } else { "" });
    type Out = (Vec<Grown>, Vec<Req>, u64);
    let mut jobs: Vec<Job<Out>> = vec![];
    for (t, plan) in plans.iter().enumerate() {
        let (vec, running, w) = (&vec, &running, &w);
        jobs.push(job!(move |_| {
            let (mut k, mut done, mut reqs, mut refused) = (0u64, vec![], vec![], 0u64);
            growth_log_start();
            for &(kind, n) in plan {
                let mut next = || {
                    k += 1;
                    uniq(t, k)
                };
                let g = match full {
                    true => panics(|| grow_once(vec, kind, n, cfg.slow_items, t, &mut next)),
                    false => Some(grow_once(vec, kind, n, cfg.slow_items, t, &mut next)),
                };
                let log = growth_log_take();
                match g {
                    Some(g) => {
                        owned(w, max, g.begin, g.vals.len(), &log, &mut reqs);
                        done.push(g);
                    }
                    None => refused += 1,
                }
            }
            running.fetch_sub(1, Relaxed);
            (done, reqs, refused)
        }));
    }
    for o in 0..rng.below(3) {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(o as u64);
        jobs.push(job!(move |_| {
            growth_log_start();
            let mut k = 0;
            while running.load(Relaxed) > 0 && (!MIRI || k < 12) {
                k += 1;
                let n = op("len", || vec.len());
                op("query", || match rng.below(9) {
                    0 => {
                        vec.get(n + rng.below(70));
                    }
                    1 => {
                        vec.get(usize::MAX - rng.below(3));
                    }
                    2 => {
                        vec.iter().count();
                    }
                    3 => {
                        vec.slice(rng.below(n + 1)..).iter().count();
                    }
                    4 => {
                        vec.swap(usize::MAX - n, 0);
                    }
                    5 => {
                        vec.get_raw(n + rng.below(9));
                        vec.get_cloned(n + rng.below(9));
                    }
                    6 if n > 0 => {
                        let i = rng.below(n);
                        vec[i].map(|x| x.val());
                    }
                    7 => {
                        vec.slice(n.saturating_sub(3)..).clone_to_vec();
                    }
                    _ => {
                        vec.chunks(5).for_each(|c| {
                            c.get(4);
                        });
                    }
                });
                let log = growth_log_take();
                check!(log.is_empty(), "{}: a query requested growth {log:?}", P::NAME);
            }
            (vec![], vec![], 0u64)
        }));
    }
    let (mut done, mut reqs, mut refused) = (vec![], vec![], 0);
    for (d, q, f) in par(rng.next(), jobs) {
        done.extend(d);
        reqs.extend(q);
        refused += f;
    }
    set_chaos(0);
    GREED.store(0, Relaxed);
    chain(&w(), &mut reqs);
    if full {
        let n: usize = done.iter().map(|g| g.vals.len()).sum();
        check!(n <= max, "{}: {n} positions were given out with a maximum capacity of {max}", w());
    } else {
        check!(refused == 0, "{}: refused", w());
        let c = contents(&vec);
        check_growth(&w(), &c, &[], &done);
        check!(c.len() == total, "{}: length {} instead of {total}", w(), c.len());
    }
    let after = storage_counters();
    ctx.count("growth_requests", after[0] - before[0]);
    ctx.count("storage_accesses", after[1] - before[1]);
    ctx.count("growth_requests_while_others_waited", after[2] - before[2]);
    ctx.count("refused_calls", refused);
    ctx.count("greedy_rounds", greedy as u64);
    ctx.sig(reqs.iter().fold(hash2(max as u64, threads as u64), |h, r| hash2(h, hash2(r.0 as u64, hash2(r.2 as u64, r.3 as u64)))));
    ctx.sample(|| format!("{}: requests (allocated, requested, begin and size of the call) {:?}", w(), &reqs[..reqs.len().min(12)]));
}

macro_rules! monitored {
    ($rng:expr, $f:ident, $t:ty, ($($a:expr),*)) => {
        match $rng.below(5) {
            0 | 1 => $f::<$t, CDbl<$t>>($($a),*),
            2 | 3 => $f::<$t, CLin<$t>>($($a),*),
            _ => $f::<$t, CFix<$t>>($($a),*),
        }
    };
}
fn contract_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => monitored!(rng, contract, u64, (ctx, rng)),
        1 => monitored!(rng, contract, Wide, (ctx, rng)),
        _ => monitored!(rng, contract, Tok, (ctx, rng)),
    }
}

/// requests of exclusive methods, conversions and out of bounds queries, on monitored storages
fn exclusive<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let top = *rng.pick(&[0, 1, 4, 5, 13, 40, ctx.size(300, 150, 10)]);
    let tight = rng.chance(1, 2).then(|| P::tight(rng, top)).flatten();
    let mut s = match tight {
        Some(v) => Sut::<T, P>::over(rng, v, vec![]),
        None => Sut::<T, P>::new(rng, top),
    };
    let before = storage_counters();
    let mut h = 0;
    for _ in 0..rng.range(3, ctx.size(60, 40, 8)) {
        let all: Vec<usize> = (0..14).collect();
        growth_log_start();
        let (len, room) = (s.model.len(), s.room());
        s.step(rng, &all, 40);
        // reserving may allocate as well but it is not a growth request
        let log = growth_log_take();
        if s.model.len() > len {
            let (mut reqs, what) = (vec![], format!("{} {}", P::NAME, T::NAME));
            owned(&|| what.clone(), s.max, len, s.model.len() - len, &log, &mut reqs);
        } else if s.log.last().map_or(true, |l| l.0 != "reserve") {
            check!(log.is_empty(), "{}: growth {log:?} was requested although nothing was added (room {room})", s.what());
        }
        h = hash2(h, s.model.len() as u64);
        if rng.chance(1, 6) {
            let w = s.what();
            queries(&s.vec, &s.model.clone(), rng, &|| w.clone());
        }
        if rng.chance(1, 8) {
            let p = s.vec.into_inner();
            let mut t = Sut::over(rng, ConcurrentVec::from(p), s.model);
            t.next = s.next;
            s = t;
            s.verify();
        }
    }
    let after = storage_counters();
    ctx.count("exclusive_requests", after[3] - before[3]);
    ctx.count("storage_accesses", after[1] - before[1]);
    ctx.count("growth_requests", after[0] - before[0]);
    ctx.sig(h);
}
fn exclusive_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => monitored!(rng, exclusive, u64, (ctx, rng)),
        _ => monitored!(rng, exclusive, Tok, (ctx, rng)),
    }
}

/// the storage takes long to grow: nobody else requests growth meanwhile, what is there stays usable, and everybody
/// goes on as soon as the capacity is there
fn slow_growth<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    gates_reset();
    let growers = rng.range(1, ctx.size(4, 3, 2));
    let readers = rng.range(1, 2);
    let batch = rng.range(1, ctx.size(20, 10, 4));
    let each = rng.range(1, ctx.size(12, 6, 3));
    let vec = P::build(rng, 300 + (growers + 1) * each * batch);
    let max = vec.maximum_capacity();
    let extra = rng.below(ctx.size(60, 20, 6));
    let mut m = prefill(&vec, extra);
    // up to, or shortly before, the end of the allocation
    while m.len() + 2 < vec.capacity() && m.len() < 250 {
        let v = uniq(1 << 20, m.len() as u64);
        vec.push(T::make(v));
        m.push(v);
    }
    let pre = m.len();
    GREED.store(*rng.pick(&[0, 0, 3, 100]), Relaxed);
    set_chaos(*rng.pick(&[0, 80]));
    GROWTH_GATE.store(0, Relaxed);
    let (left, reading) = (AtomicUsize::new(growers), AtomicUsize::new(readers));
    let w = || format!("{} with a storage that is slow to grow", P::NAME);
    type Out = (Vec<Grown>, Vec<Req>);
    let mut jobs: Vec<Job<Out>> = vec![];
    for t in 0..growers {
        let (vec, left, w) = (&vec, &left, &w);
        let mut rng = rng.fork(t as u64);
        jobs.push(job!(move |_| {
            let (mut k, mut done, mut reqs) = (0u64, vec![], vec![]);
            growth_log_start();
            for _ in 0..each {
                let (kind, n) = (rng.below(5), rng.below(batch + 1));
                let g = grow_once(vec, kind, n, false, t, || {
                    k += 1;
                    uniq(t, k)
                });
                owned(w, max, g.begin, g.vals.len(), &growth_log_take(), &mut reqs);
                done.push(g);
            }
            left.fetch_sub(1, Release);
            (done, reqs)
        }));
    }
    let m2 = &m;
    for o in 0..readers {
        let (vec, left, reading) = (&vec, &left, &reading);
        let mut rng = rng.fork(50 + o as u64);
        jobs.push(job!(move |_| {
            wait_for(|| GATES[0].arrived.load(Acquire) == 1 || left.load(Acquire) == 0);
            for _ in 0..if MIRI { 3 } else { 20 } {
                let n = op("len", || vec.len());
                check!(n >= pre, "{}: length {n} while the storage grows, {pre} were written", P::NAME);
                let i = rng.below(pre.max(1));
                if pre > 0 {
                    let v = op("read", || reach(vec, i, rng.below(WAYS), rng.below(64), |e| e.map(|x| x.val())));
                    check!(v == m2[i], "{}: {v:x} at {i} while the storage grows", P::NAME);
                }
            }
            reading.fetch_sub(1, Release);
            (vec![], vec![])
        }));
    }
    {
        let (left, reading) = (&left, &reading);
        jobs.push(job!(move |_| {
            wait_for(|| GATES[0].arrived.load(Acquire) == 1 || left.load(Acquire) == 0);
            // readers are done while the storage is still growing
            wait_for(|| reading.load(Acquire) == 0);
            if !MIRI {
                // let the growers run into the boundary
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
            GATES[0].open.store(1, Release);
            (vec![], vec![])
        }));
    }
    let (mut done, mut reqs) = (vec![], vec![]);
    for (d, q) in par(rng.next(), jobs) {
        done.extend(d);
        reqs.extend(q);
    }
    set_chaos(0);
    GREED.store(0, Relaxed);
    GROWTH_GATE.store(usize::MAX, Relaxed);
    let slow = GATES[0].arrived.load(Relaxed) == 1;
    chain(&w(), &mut reqs);
    let c = contents(&vec);
    check_growth(&w(), &c, &m, &done);
    let n: usize = done.iter().map(|g| g.vals.len()).sum();
    check!(c.len() == pre + n, "{}: length {} instead of {}", w(), c.len(), pre + n);
    ctx.count("slow_growths", slow as u64);
    ctx.count("growth_requests", reqs.len() as u64);
    ctx.sig(reqs.iter().fold(hash2(pre as u64, slow as u64), |h, r| hash2(h, hash2(r.0 as u64, hash2(r.2 as u64, r.3 as u64)))));
    ctx.sample(|| format!("{}: {pre} elements, {growers} growers, requests {:?}", w(), &reqs[..reqs.len().min(12)]));
}
fn slow_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => slow_growth::<u64, CDbl<u64>>(ctx, rng),
        1 => slow_growth::<Tok, CLin<Tok>>(ctx, rng),
        _ => slow_growth::<Wide, CLin<Wide>>(ctx, rng),
    }
}

fn main() {
    run(
        "C20",
        &[
            Scenario::new("contract", 5, contract_any).miri(),
            Scenario::new("exclusive", 2, exclusive_any).miri().seq(),
            Scenario::new("slow_growth", 3, slow_any).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C20")),
        ],
    );
}
