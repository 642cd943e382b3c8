use mon::growth::*;
use mon::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// one batch on a vec of a given length: the space of (length, batch size, kind, storage) is walked through
fn enumerated<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let usual = ctx.size(150, 100, 20);
    let limit = ctx.rare(rng, usual, 6000);
    let large = limit > usual;
    for _ in 0..if large { 4 } else { ctx.size(40, 10, 2) } {
        let pre = match rng.below(5) {
            // around the boundaries of fragments of every size
            0 => ((1usize << rng.range(1, if large { 12 } else { 7 })) + rng.below(5)).saturating_sub(2).min(limit),
            1 => [4usize, 12, 28, 60, 124][rng.below(5)].saturating_sub(rng.below(3)).min(limit),
            _ => rng.below(limit),
        };
        let n = match rng.below(6) {
            0 => rng.below(4),
            1 => ((1usize << rng.range(1, if large { 14 } else { 8 })) + rng.below(5)).saturating_sub(2).min(limit * 3),
            2 => rng.below(limit * 4),
            _ => rng.below(limit / 2),
        };
        let kind = rng.below(5);
        let tight = rng.bool();
        let need = pre + n.max(1) + 1;
        let vec = match tight {
            true => P::tight(rng, need).unwrap_or_else(|| P::build(rng, need)),
            false => P::build(rng, need),
        };
        let init = prefill(&vec, pre);
        let mut k = 0;
        let g = grow_once(&vec, kind, n, false, 0, || {
            k += 1;
            uniq(0, k)
        });
        let what = format!("{} {}: {} of {n} on length {pre}", P::NAME, T::NAME, g.kind);
        check!(g.begin == pre, "{what}: returned {}", g.begin);
        let mut expect = init.clone();
        expect.extend(&g.vals);
        let seen = contents(&vec);
        check!(seen == expect, "{what}: contents {:?} expected {:?}", seq::diff(&seen, &expect), seq::diff(&expect, &seen));
        check!(vec.len() == expect.len(), "{what}: len {}", vec.len());
        // one more item lands right behind
        let i = vec.push_for_idx(|i| T::make(i as u64));
        check!(i == expect.len(), "{what}: the next push returned {i} instead of {}", expect.len());
        check!(vec.get(i).map(|e| e.map(|x| x.val())) == Some(i as u64), "{what}: the next pushed value is not found");
        ctx.eval(1);
        ctx.count("batches", 1);
        ctx.sig(hash2(hash2(pre as u64, g.vals.len() as u64), hash2(kind as u64, hash_str(P::NAME))));
        ctx.sample(|| what);
    }
}
fn enumerated_any(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    match rng.below(3) {
        0 => any_store!(rng, enumerated, u64, (ctx, rng)),
        1 => any_store!(rng, enumerated, Wide, (ctx, rng)),
        _ => any_store!(rng, enumerated, Tok, (ctx, rng)),
    }
    check!(tok_live() == 0, "{} values are alive after their vec is gone", tok_live());
}

/// iterators that yield more than requested, of all shapes: exactly the first n are stored
fn oversupply<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let pre = rng.skewed(20);
    let n = ctx.size(120, 60, 12);
    let n = ctx.rare(rng, n, 6000);
    let n = rng.skewed(n);
    let vec = P::build(rng, pre + n + 4);
    let mut expect = prefill(&vec, pre);
    let v0 = 1000u64;
    let shape = rng.below(5);
    let asked = std::cell::Cell::new(0u64);
    let item = |k: u64| {
        asked.set(asked.get() + 1);
        T::make(v0 + k)
    };
    let begin = match shape {
        0 => vec.extend_n_items((0..).map(item), n),
        1 => {
            let mut k = 0;
            vec.extend_n_items(
                std::iter::from_fn(|| {
                    k += 1;
                    Some(item(k - 1))
                }),
                n,
            )
        }
        2 => vec.extend_n_items((0..(n as u64 + 5)).map(item).collect::<Vec<_>>(), n),
        // size hints without information
        3 => vec.extend_n_items((0..u64::MAX).filter(|_| true).map(item), n),
        _ => {
            let mut it = (0..).map(item);
            let b = vec.extend_n_items(it.by_ref(), n);
            // the remaining items are still the caller's; a few look-ahead calls would be tolerable, lost items are not
            drop(it);
            b
        }
    };
    let what = format!("{} {}: extend_n_items of {n} from a longer iterator (shape {shape}) on length {pre}", P::NAME, T::NAME);
    check!(begin == pre, "{what}: returned {begin}");
    expect.extend((0..n as u64).map(|k| v0 + k));
    let seen = contents(&vec);
    check!(seen == expect, "{what}: contents {:?} expected {:?}", seq::diff(&seen, &expect), seq::diff(&expect, &seen));
    let i = vec.push(T::make(5));
    check!(i == expect.len(), "{what}: next push returned {i}");
    ctx.count("oversupplied_batches", 1);
    ctx.sig(hash2(hash2(pre as u64, n as u64), hash2(shape as u64, hash_str(P::NAME))));
    ctx.sample(|| what);
}
fn oversupply_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => any_store!(rng, oversupply, u64, (ctx, rng)),
        _ => any_store!(rng, oversupply, Tok, (ctx, rng)),
    }
}

/// concurrent batches with slow items: contiguity and index closures under interleaving
fn concurrent<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let threads = rng.range(2, ctx.size(8, 6, 3));
    let usual = *rng.pick(&[3, 9, 40, ctx.size(300, 120, 5)]);
    let max_batch = ctx.rare(rng, usual, 6000);
    let large = max_batch > 600;
    let cfg = GrowCfg { batches: *rng.pick(&[60, 100, 100]), max_batch, slow_items: rng.bool() && !large };
    let calls = rng.range(2, if large { 5 } else { ctx.size(30, 15, 3) });
    let plans: Vec<_> = (0..threads).map(|_| plan(rng, &cfg, calls)).collect();
    let need = plans.iter().map(|p| plan_size(p)).sum::<usize>();
    let pre = rng.skewed(ctx.size(40, 20, 3));
    let vec = P::build(rng, need + pre);
    let init = prefill(&vec, pre);
    set_chaos(*rng.pick(&[0, 50, 130]));
    let jobs = plans
        .iter()
        .enumerate()
        .map(|(t, plan)| {
            let vec = &vec;
            job!(move |_| {
                let mut k = 0;
                let mut r = vec![];
                for &(kind, n) in plan {
                    let g = grow_once(vec, kind, n, cfg.slow_items, t, || {
                        k += 1;
                        uniq(t, k)
                    });
                    // the caller finds its batch at once where it was told, in iteration order
                    let by = 1 + g.vals.len() / 300 * 7;
                    for (j, v) in g.vals.iter().enumerate().step_by(by) {
                        // (it might not be reachable yet if earlier positions are being written)
                        let len = vec.len();
                        let seen = vec.get_cloned(g.begin + j).map(|x| x.val());
                        check!(
                            seen == Some(*v) || (seen.is_none() && len <= g.begin + j),
                            "{} {}: after {} of {} returned {}, its item {j} is {seen:x?} instead of {v:x}",
                            P::NAME, T::NAME, g.kind, g.vals.len(), g.begin
                        );
                    }
                    r.push(g);
                }
                r
            })
        })
        .collect();
    let ops: Vec<Grown> = par(rng.next(), jobs).into_iter().flatten().collect();
    set_chaos(0);
    let what = format!("{} {} {threads} threads", P::NAME, T::NAME);
    check_growth(&what, &contents(&vec), &init, &ops);
    let (switches, h) = interleaving(&ops);
    ctx.count("concurrent_batches", ops.len() as u64);
    ctx.maximum("largest_batch", ops.iter().map(|o| o.vals.len()).max().unwrap_or(0) as u64);
    ctx.count("owner_switches", switches);
    if switches > 1 {
        ctx.sig(h);
    }
    ctx.sample(|| format!("{what}: {:?}", ops.iter().take(10).map(|o| (o.thread, o.kind, o.begin, o.vals.len())).collect::<Vec<_>>()));
}
fn concurrent_any(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    match rng.below(3) {
        0 => any_store!(rng, concurrent, Odd, (ctx, rng)),
        1 => any_store!(rng, concurrent, String, (ctx, rng)),
        _ => any_store!(rng, concurrent, Tok, (ctx, rng)),
    }
}

/// the iterator does not deliver what was asked for: the call must not return
fn undersupply<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    struct Lies<I>(I, usize);
    impl<I: Iterator> Iterator for Lies<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.1, Some(self.1))
        }
    }
    impl<I: Iterator> ExactSizeIterator for Lies<I> {}
    let pre = rng.skewed(20);
    let n = ctx.size(120, 60, 12);
    let n = ctx.rare(rng, n, 3000);
    let n = 1 + rng.skewed(n);
    let m = match rng.below(3) {
        0 => n - 1,
        1 => rng.below(n),
        _ => 0,
    };
    let vec = P::build(rng, pre + n + 4);
    let expect = prefill(&vec, pre);
    let item = |k: usize| T::make(2000 + k as u64);
    let shape = rng.below(7);
    let told = std::cell::Cell::new(usize::MAX);
    let r = match shape {
        0 => panics(|| vec.extend_n_items((0..m).map(item).collect::<Vec<_>>(), n)),
        1 => panics(|| vec.extend_n_items((0..m).map(item).filter(|_| true), n)),
        2 => {
            // goes on after its end
            let mut k = 0;
            panics(|| {
                vec.extend_n_items(
                    std::iter::from_fn(|| {
                        k += 1;
                        (k != m + 1).then(|| item(k - 1))
                    }),
                    n,
                )
            })
        }
        3 => panics(|| vec.extend(Lies((0..m).map(item), n))),
        4 => panics(|| {
            vec.extend_for_idx(
                |i| {
                    told.set(i);
                    (0..m).map(item).collect::<Vec<_>>()
                },
                n,
            )
        }),
        5 => panics(|| {
            vec.extend_for_idx(
                |i| {
                    told.set(i);
                    (0..n + 1 + m).map(item).collect::<Vec<_>>()
                },
                n,
            )
        }),
        _ => panics(|| {
            vec.extend_for_idx(
                |i| {
                    told.set(i);
                    Lies((0..m).map(item), n)
                },
                n,
            )
        }),
    };
    let what = format!("{} {}: a batch of {n} with {m} items (shape {shape}) on length {pre}", P::NAME, T::NAME);
    check!(r.is_none(), "{what}: returned {r:?}");
    check!(told.get() == usize::MAX || told.get() == pre, "{what}: the closure was told {}", told.get());
    let seen = contents(&vec);
    let given = if shape == 5 { n } else { m };
    check!(seen.len() >= pre && seen.len() <= pre + given && seen[..pre] == expect, "{what}: contents {seen:x?} after {expect:x?}");
    check!((pre..seen.len()).all(|i| seen[i] == 2000 + (i - pre) as u64), "{what}: contents {seen:x?} after {expect:x?}");
    let i = vec.push(T::make(5));
    check!(i >= seen.len() && vec.get_raw(i).map(|x| unsafe { (*x).val() }) == Some(5), "{what}: next push returned {i}");
    ctx.count("undersupplied_batches", 1);
    ctx.sig(hash2(hash2(pre as u64, n as u64), hash2(hash2(m as u64, 100 + shape as u64), hash_str(P::NAME))));
    ctx.sample(|| what);
}
fn undersupply_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => any_store!(rng, undersupply, u64, (ctx, rng)),
        _ => any_store!(rng, undersupply, Tok, (ctx, rng)),
    }
}

fn main() {
    run(
        "C02",
        &[
            Scenario::new("enumerated", 3, enumerated_any).miri().seq(),
            Scenario::new("oversupply", 1, oversupply_any).miri().seq(),
            Scenario::new("undersupply", 1, undersupply_any).miri().seq(),
            Scenario::new("concurrent", 5, concurrent_any).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C02")),
        ],
    );
}
