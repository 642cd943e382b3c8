use mon::growth::*;
use mon::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

fn finish<T: Pay, P: Store<T>>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    vec: ConcurrentVec<T, P>,
    init: &[u64],
    ops: &[Grown],
    threads: usize,
) {
    set_chaos(0);
    let what = format!("{} {} {threads} threads", P::NAME, T::NAME);
    let seen = contents(&vec);
    check_growth(&what, &seen, init, ops);
    check!(vec.len() == seen.len(), "{what}: len {} but {} elements are iterated", vec.len(), seen.len());
    let owned: Vec<u64> = match rng.below(3) {
        0 => vec.to_vec().iter().map(|x| x.val()).collect(),
        1 => vec.into_iter().map(|x| x.val()).collect(),
        _ => {
            let c = vec.clone_to_vec().iter().map(|x| x.val()).collect();
            drop(vec);
            c
        }
    };
    check!(owned == seen, "{what}: contents change by taking them out");
    let (switches, h) = interleaving(ops);
    ctx.count("growth_calls", ops.len() as u64);
    ctx.count("positions", ops.iter().map(|o| o.vals.len() as u64).sum());
    ctx.count("owner_switches", switches);
    ctx.maximum("threads", threads as u64);
    if switches >= 2 {
        ctx.sig(h);
    }
    ctx.sample(|| {
        format!(
            "{what}: {} initial, calls (thread,kind,begin,n): {:?}",
            init.len(),
            ops.iter().take(12).map(|o| (o.thread, o.kind, o.begin, o.vals.len())).collect::<Vec<_>>()
        )
    });
}

fn mixed<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(8, 6, 3));
    let usual = *rng.pick(&[2, 7, 33, ctx.size(150, 80, 5)]);
    let max_batch = ctx.rare(rng, usual, 5000);
    let large = max_batch > 600;
    let cfg = GrowCfg { batches: *rng.pick(&[0, 10, 50, 100]), max_batch, slow_items: rng.bool() && !large };
    let calls = rng.range(1, if large { 6 } else { ctx.size(60, 30, 4) });
    let plans: Vec<_> = (0..threads).map(|_| plan(rng, &cfg, calls)).collect();
    let init = rng.skewed(ctx.size(70, 40, 5));
    let need = init + plans.iter().map(|p| plan_size(p)).sum::<usize>();
    let vec = P::build(rng, need);
    let init = prefill(&vec, init);
    set_chaos(*rng.pick(&[0, 0, 40, 120]));
    let jobs = plans
        .iter()
        .enumerate()
        .map(|(t, plan)| {
            let vec = &vec;
            job!(move |_| {
                let mut k = 0;
                plan.iter()
                    .map(|&(kind, n)| {
                        grow_once(vec, kind, n, cfg.slow_items, t, || {
                            k += 1;
                            uniq(t, k)
                        })
                    })
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    let ops: Vec<Grown> = par(rng.next(), jobs).into_iter().flatten().collect();
    finish::<T, P>(ctx, rng, vec, &init, &ops, threads);
    check!(tok_live() == 0, "{} {}: {} values are neither dropped nor handed out", P::NAME, T::NAME, tok_live());
}

fn mixed_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => any_store!(rng, mixed, Odd, (ctx, rng)),
        1 => any_store!(rng, mixed, Wide, (ctx, rng)),
        _ => any_store!(rng, mixed, Tok, (ctx, rng)),
    }
}

/// maximum contention: nothing but pushes, no recording between them
fn storm<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let threads = rng.range(2, 8);
    let each = ctx.size(4000, 800, 10);
    let batch = *rng.pick(&[1, 1, 2, 5]);
    let vec = P::build(rng, threads * each * batch);
    let jobs = (0..threads)
        .map(|t| {
            let vec = &vec;
            job!(move |_| {
                let mut idx = Vec::with_capacity(each);
                for k in 0..each {
                    let v = uniq(t, (k * batch) as u64);
                    idx.push(op("push/extend", || match batch {
                        1 => vec.push(T::make(v)),
                        n => vec.extend((0..n).map(|j| T::make(v + j as u64))),
                    }));
                }
                idx
            })
        })
        .collect();
    let idx: Vec<Vec<usize>> = par(rng.next(), jobs);
    let ops: Vec<Grown> = idx
        .iter()
        .enumerate()
        .flat_map(|(t, v)| {
            v.iter().enumerate().map(move |(k, begin)| Grown {
                thread: t,
                kind: "push/extend",
                inv: 0,
                ret: u64::MAX,
                begin: *begin,
                vals: (0..batch).map(|j| uniq(t, (k * batch + j) as u64)).collect(),
                born: vec![],
            })
        })
        .collect();
    // positions of one thread increase
    for (t, v) in idx.iter().enumerate() {
        for w in v.windows(2) {
            check!(w[0] < w[1], "thread {t}: a later push got the smaller position {} after {}", w[1], w[0]);
        }
    }
    finish::<T, P>(ctx, rng, vec, &[], &ops, threads);
}

fn storm_any(ctx: &mut Ctx, rng: &mut Rng) {
    plain_store!(rng, storm, u64, (ctx, rng))
}

/// growth calls which overlap with readers, updaters and length queries
fn with_traffic<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let growers = rng.range(2, ctx.size(5, 4, 2));
    let others = rng.range(1, ctx.size(3, 2, 1));
    let cfg = GrowCfg { batches: 30, max_batch: ctx.size(40, 20, 4), slow_items: true };
    let calls = rng.range(4, ctx.size(40, 20, 4));
    let plans: Vec<_> = (0..growers).map(|_| plan(rng, &cfg, calls)).collect();
    let need = plans.iter().map(|p| plan_size(p)).sum::<usize>();
    let vec = P::build(rng, need);
    set_chaos(*rng.pick(&[0, 60, 120]));
    let running = std::sync::atomic::AtomicUsize::new(growers);
    let mut jobs: Vec<Job<Vec<Grown>>> = plans
        .iter()
        .enumerate()
        .map(|(t, plan)| {
            let (vec, running) = (&vec, &running);
            job!(move |_| {
                let mut k = 0;
                let r = plan
                    .iter()
                    .map(|&(kind, n)| grow_once(vec, kind, n, true, t, || { k += 1; uniq(t, k) }))
                    .collect::<Vec<_>>();
                running.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
                r
            })
        })
        .collect();
    for o in 0..others {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(o as u64);
        jobs.push(job!(move |_| {
            let mut rounds = 0;
            while running.load(std::sync::atomic::Ordering::Relaxed) > 0 && rounds < 100_000 {
                rounds += 1;
                op("read", || {
                    let n = vec.len();
                    if n > 0 {
                        let i = rng.below(n);
                        match rng.below(4) {
                            // identity updates must not disturb growth
                            0 => vec[i].update(|x| { let v = x.val(); x.put(v); }),
                            1 => { vec.get_cloned(i); }
                            2 => { vec.iter().for_each(|e| { e.map(|x| x.val()); }); }
                            _ => { vec.swap(i, i); }
                        }
                    }
                });
            }
            vec![]
        }));
    }
    let ops: Vec<Grown> = par(rng.next(), jobs).into_iter().flatten().collect();
    finish::<T, P>(ctx, rng, vec, &[], &ops, growers);
}

fn traffic_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => any_store!(rng, with_traffic, Wide, (ctx, rng)),
        _ => any_store!(rng, with_traffic, Tok, (ctx, rng)),
    }
}

fn main() {
    run(
        "C01",
        &[
            Scenario::new("mixed", 5, mixed_any).miri(),
            Scenario::new("storm", 2, storm_any),
            Scenario::new("traffic", 3, traffic_any).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C01")),
        ],
    );
}
