use mon::growth::*;
use mon::seq::*;
use mon::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// reports whatever length it is told to
struct Liar<T>(std::vec::IntoIter<T>, usize);
impl<T> Iterator for Liar<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, Some(self.1))
    }
}
impl<T> ExactSizeIterator for Liar<T> {}

/// asks for n items by the batch method `kind`; true if it panicked
fn ask<T: Pay, P: Store<T>>(vec: &ConcurrentVec<T, P>, kind: usize, n: usize) -> bool {
    // the iterators are shorter than promised if n is absurd
    let items = || (0..n.min(40)).map(|k| T::make(k as u64)).collect::<Vec<_>>();
    panics(|| match kind {
        2 => vec.extend(Liar(items().into_iter(), n)),
        3 => vec.extend_for_idx(|_| Liar(items().into_iter(), n), n),
        _ => vec.extend_n_items(items(), n),
    })
    .is_none()
}

fn absurd(rng: &mut Rng, max: usize) -> usize {
    let k = rng.below(70);
    match rng.below(8) {
        0 => max + 1 + k,
        1 => usize::MAX - k,
        2 => usize::MAX - max - k.min(max),
        3 => isize::MAX as usize + k,
        4 => (isize::MAX as usize - k).max(max + 1),
        5 => (usize::MAX / 2 - max / 2 + k).max(max + 1),
        6 => (1usize << rng.range(24, 63)) + k,
        _ => max.saturating_mul(2) + 1,
    }
}

/// filled to the brim and asked for more, by all means
fn brim<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let top = *rng.pick(&[0, 1, 2, 3, 4, 5, 8, 12, 28, 30, 64, ctx.size(300, 150, 10)]);
    let top = match rng.chance(1, 4) {
        true => ctx.rare(rng, top, 5000),
        false => top,
    };
    let Some(vec) = P::tight(rng, top) else { return };
    let mut s = Sut::<T, P>::over(rng, vec, vec![]);
    let max = s.max;
    let mut h = hash2(hash_str(P::NAME), max as u64);
    for round in 0..rng.range(1, ctx.size(4, 3, 2)) {
        // exactly max positions are available
        while s.room() > 0 {
            if rng.chance(1, 6) {
                // absurd requests do not take any of them
                let (kind, n) = (rng.range(2, 4), absurd(rng, max));
                s.log.push(("absurd", kind, n));
                let w = s.what();
                check!(ask(&s.vec, kind, n), "{w}: {} of {n} items succeeded with a maximum capacity of {max}", KINDS[kind]);
                check!(s.vec.len() == s.model.len(), "{w}: the length became {} after a refused request", s.vec.len());
                ctx.count("absurd_requests", 1);
                h = hash2(h, n as u64);
            }
            let b = s.room().min(rng.range(1, 40));
            s.step(rng, &GROW, b);
        }
        s.verify();
        let w = s.what();
        check!(s.vec.capacity() <= max, "{w}: the capacity {} exceeds the maximum {max}", s.vec.capacity());
        for _ in 0..rng.range(1, 12) {
            let n = match rng.below(4) {
                0 => absurd(rng, max),
                1 => 1,
                _ => rng.range(1, max.max(1) + 2),
            };
            let kind = rng.below(5);
            let refused = match kind {
                0 => panics(|| s.vec.push(T::make(5))).is_none(),
                1 => panics(|| s.vec.push_for_idx(|_| T::make(6))).is_none(),
                _ => ask(&s.vec, kind, n),
            };
            check!(refused, "{w}: {} of {n} items succeeded although the maximum capacity {max} is reached", KINDS[kind]);
            ctx.count("refused_calls", 1);
            if rng.chance(1, 4) {
                let kind = rng.range(2, 4);
                check!(!ask(&s.vec, kind, 0), "{w}: {} of no items failed in a full vec", KINDS[kind]);
            }
            if rng.chance(1, 2) {
                s.verify();
            }
            check!(s.vec.get(max).is_none() && s.vec.get_cloned(max).is_none() && s.vec.get_raw(max).is_none(), "{w}: position {max} is present");
            if rng.chance(1, 3) && max > 0 {
                s.step(rng, &UPDATE, 0);
            }
        }
        s.verify();
        check!(s.vec.maximum_capacity() == max, "{w}: the maximum capacity became {}", s.vec.maximum_capacity());
        queries(&s.vec, &s.model, rng, &|| w.clone());
        if T::NAME == "token" {
            check!(tok_live() == max as i64, "{w}: {} values are alive in a vec of {max}", tok_live());
        }
        ctx.count("brimful_vecs", 1);
        // and it goes on
        match rng.below(5) {
            0 | 1 => s.apply(rng, 12, 0),
            2 => {
                // a converted vec keeps everything; the storage can grow again where it supports that
                let Sut { vec, model, .. } = s;
                let v: Vec<u64> = match rng.below(3) {
                    0 => vec.to_vec().iter().map(|x| x.val()).collect(),
                    1 => vec.into_iter().map(|x| x.val()).collect(),
                    _ => {
                        let c: Vec<u64> = vec.clone_to_vec().iter().map(|x| x.val()).collect();
                        check!(c == model, "{w}: clone_to_vec differs");
                        ConcurrentVec::<T, P>::from(vec.into_inner()).to_vec().iter().map(|x| x.val()).collect()
                    }
                };
                check!(v == model, "{w}: converted to {:?}, expected {:?}", diff(&v, &model), diff(&model, &v));
                ctx.count("conversions", 1);
                h = hash2(h, 3);
                break;
            }
            _ => {
                // a higher limit makes room
                let want = max + rng.range(1, 20);
                let r = s.vec.reserve_maximum_capacity(want);
                check!(r >= want && r == s.vec.maximum_capacity(), "{w}: reserving {want} returned {r}");
                s.max = r;
                s.verify();
                s.apply(rng, 0, 0);
                s.verify();
                ctx.count("raised_limits", 1);
                h = hash2(h, want as u64);
                break;
            }
        }
        h = hash2(h, round as u64);
    }
    ctx.sig(h);
    ctx.sample(|| format!("{} {} maximum {max}", P::NAME, T::NAME));
}
fn brim_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, brim, u64, (ctx, rng)),
        1 => any_store!(rng, brim, Aligned, (ctx, rng)),
        _ => any_store!(rng, brim, Tok, (ctx, rng)),
    }
    check!(tok_live() == 0, "{} values are alive after everything was dropped", tok_live());
}

/// many threads race for the last positions
fn race<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(8, 5, 3));
    let top = *rng.pick(&[1, 2, 4, 7, 12, 28, 60, ctx.size(500, 150, 6)]);
    let Some(mut vec) = P::tight(rng, top) else { return };
    let max = vec.maximum_capacity();
    let rounds = rng.range(1, 2);
    for round in 0..rounds {
        let pushes_only = rng.chance(1, 2);
        let pre = rng.below(max + 1);
        let init = prefill(&vec, pre);
        let left = max - pre;
        let cfg = GrowCfg {
            batches: if pushes_only { 0 } else { *rng.pick(&[20, 60, 100]) },
            max_batch: rng.range(1, ctx.size(20, 12, 4)),
            slow_items: rng.chance(2, 3),
        };
        // together they ask for more than there is
        let calls = left / threads + rng.range(1, ctx.size(20, 10, 3));
        let plans: Vec<_> = (0..threads).map(|_| plan(rng, &cfg, calls)).collect();
        let absurds: Vec<usize> = (0..threads).map(|_| absurd(rng, max)).collect();
        let with_absurd = rng.chance(1, 3);
        set_chaos(*rng.pick(&[0, 60, 160]));
        let running = AtomicUsize::new(threads);
        enum Out {
            G(Vec<Grown>, Vec<usize>, usize),
            O(u64),
        }
        let mut jobs: Vec<Job<Out>> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (vec, running, big) = (&vec, &running, absurds[t]);
                job!(move |_| {
                    let mut k = 0u64;
                    let (mut done, mut refused, mut absurds) = (vec![], vec![], 0usize);
                    for (c, &(kind, n)) in plan.iter().enumerate() {
                        if with_absurd && c % 5 == t % 5 {
                            let kind = 2 + c % 3;
                            check!(op("absurd request", || ask(vec, kind, big)), "{}: {} of {big} items succeeded with a maximum capacity of {max}", P::NAME, KINDS[kind]);
                            absurds += 1;
                        }
                        match panics(|| grow_once(vec, kind, n, cfg.slow_items, t, || {
                            k += 1;
                            uniq(t, k)
                        })) {
                            Some(g) => {
                                // an element owned by a successful caller is usable at once
                                if g.vals.len() > 0 && k % 3 == 0 {
                                    let i = g.begin + g.vals.len() - 1;
                                    let v = unsafe { vec.get_ref(i) }.map(|x| x.val());
                                    check!(v == g.vals.last().copied(), "{}: position {i} holds {v:?} right after it was written", P::NAME);
                                }
                                done.push(g)
                            }
                            None => refused.push(if kind < 2 { 1 } else { n }),
                        }
                    }
                    running.fetch_sub(1, Relaxed);
                    Out::G(done, refused, absurds)
                })
            })
            .collect();
        {
            let (vec, running) = (&vec, &running);
            let mut rng = rng.fork(3);
            jobs.push(job!(move |_| {
                let mut n = 0u64;
                let mut last = 0;
                loop {
                    let end = running.load(Relaxed) == 0;
                    let len = op("len", || vec.len());
                    check!(len <= max && len >= last, "{}: length {len} after {last} with a maximum capacity of {max}", P::NAME);
                    last = len;
                    if len > 0 {
                        let i = len - 1 - rng.below(len.min(4));
                        op("read", || reach(vec, i, rng.below(WAYS), rng.below(64), |e| e.map(|x| x.val())));
                    }
                    check!(vec.get(max).is_none(), "{}: position {max} is present", P::NAME);
                    n += 1;
                    if end || (MIRI && n > 10) {
                        break;
                    }
                    std::thread::yield_now();
                }
                Out::O(n)
            }));
        }
        let (mut ops, mut refused, mut observed, mut absurds) = (vec![], vec![], 0, 0);
        for o in par(rng.next(), jobs) {
            match o {
                Out::G(g, r, a) => {
                    ops.extend(g);
                    refused.extend(r);
                    absurds += a;
                }
                Out::O(n) => observed += n,
            }
        }
        set_chaos(0);
        let what = format!("{} {} {threads} threads racing for {pre}..{max}", P::NAME, T::NAME);
        let got: usize = ops.iter().map(|g| g.vals.len()).sum();
        let s = pre + got;
        check!(s <= max, "{what}: {got} positions were handed out");
        if pushes_only {
            check!(got == left, "{what}: {got} of {} pushes succeeded, {left} positions were left", got + refused.len());
        } else if let Some(big) = refused.iter().max() {
            check!(s + big > max, "{what}: a request of {big} was refused although only {s} positions are taken");
        }
        check!(refused.iter().all(|n| *n > 0), "{what}: a request of no items was refused");
        // the successful ones own 0..s and nothing else is visible
        check_growth(&what, &contents(&vec), &init, &ops);
        check!(vec.len() == s, "{what}: the length is {} after {got} positions were handed out", vec.len());
        check!(vec.get(s).is_none(), "{what}: position {s} is present");
        if T::NAME == "token" {
            check!(tok_live() == s as i64, "{what}: {} values are alive in a vec of {s}", tok_live());
        }
        let (h, switches) = interleaving(&ops);
        if switches > 1 {
            ctx.sig(hash2(h, refused.len() as u64));
        }
        ctx.count("races", 1);
        ctx.count("positions_won", got as u64);
        ctx.count("refused_in_races", refused.len() as u64);
        ctx.count("absurd_requests_in_races", absurds as u64);
        ctx.count("observations_in_races", observed);
        if s < max {
            ctx.count("races_with_lost_positions", 1);
        }
        ctx.sample(|| format!("{what}: {} calls succeeded, {} were refused, length {s}", ops.len(), refused.len()));
        // everything goes on
        let mut rng2 = rng.fork(9);
        let model = contents(&vec);
        let mut sut = Sut::<T, P>::over(&mut rng2, vec, model);
        for _ in 0..rng.below(8) {
            sut.step(&mut rng2, &UPDATE, 0);
        }
        sut.verify();
        if s == max {
            let c: Vec<u64> = sut.vec.clone_to_vec().iter().map(|x| x.val()).collect();
            check!(c == sut.model, "{what}: clone_to_vec differs");
        }
        if s == max && rng.chance(1, 3) {
            let v: Vec<u64> = sut.vec.into_iter().map(|x| x.val()).collect();
            check!(v == sut.model, "{what}: converted to {:?}, expected {:?}", diff(&v, &sut.model), diff(&sut.model, &v));
            ctx.count("conversions_after_races", 1);
            return;
        }
        sut.apply(&mut rng2, 12, 0);
        sut.verify();
        vec = sut.vec;
        if round + 1 == rounds {
            // a cleared vec can be filled completely
            for i in 0..max {
                let j = vec.push(T::make(i as u64));
                check!(i == j, "{what}: push after clear returned {j}, expected {i}");
            }
            check!(panics(|| vec.push(T::make(1))).is_none(), "{what}: push succeeded in the refilled vec");
            let c = contents(&vec);
            check!(c.len() == max && c.iter().enumerate().all(|(i, x)| *x == i as u64), "{what}: wrong contents after clear and refilling");
        }
    }
}
fn race_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, race, u64, (ctx, rng)),
        1 => any_store!(rng, race, Wide, (ctx, rng)),
        _ => any_store!(rng, race, Tok, (ctx, rng)),
    }
    check!(tok_live() == 0, "{} values are alive after everything was dropped", tok_live());
}

fn main() {
    run(
        "C15",
        &[
            Scenario::new("brim", 3, brim_any).miri().seq(),
            Scenario::new("race", 5, race_any).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C15")).seq(),
        ],
    );
}
