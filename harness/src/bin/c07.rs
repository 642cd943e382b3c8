use mon::growth::*;
use mon::seq::*;
use mon::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// takes the values out of the vec in one of the ways and verifies them; `held` of them stay with the caller
fn take_out<P: Store<Tok>>(vec: ConcurrentVec<Tok, P>, expect: Option<&[u64]>, rng: &mut Rng) -> &'static str {
    let len = vec.len();
    let same = |how: &str, vals: &[Tok]| {
        check!(vals.len() == len, "{}: {how} gave {} of {len} values", P::NAME, vals.len());
        for (k, x) in vals.iter().enumerate() {
            let v = x.val();
            if let Some(e) = expect {
                check!(v == e[k], "{}: {how} gave {v:x} at {k} instead of {:x}", P::NAME, e[k]);
            }
        }
        check!(tok_live() == len as i64, "{}: {} values are alive while {how} handed out {len}", P::NAME, tok_live());
    };
    match rng.below(8) {
        0 | 1 => {
            drop(vec);
            "drop"
        }
        2 => {
            let v = vec.to_vec();
            same("to_vec", &v);
            "to_vec"
        }
        3 => {
            let v: Vec<Tok> = vec.into_iter().collect();
            same("into_iter", &v);
            "into_iter"
        }
        4 => {
            let m = contents(&vec);
            walk("into_iter", vec.into_iter(), |x| x.val(), &m, rng);
            check!(tok_live() == 0, "{}: {} of {len} values are alive after the iterator is consumed or dropped", P::NAME, tok_live());
            "steps of into_iter"
        }
        5 => {
            // partially consumed
            let mut it = vec.into_iter();
            let n = rng.below(len + 2);
            let mut held = vec![];
            for k in 0..n {
                match it.next() {
                    Some(x) => {
                        x.val();
                        held.push(x)
                    }
                    None => check!(k >= len, "{}: into_iter ended after {k} of {len} values", P::NAME),
                }
            }
            check!(tok_live() == len as i64, "{}: {} values alive after taking {n} of {len} by into_iter", P::NAME, tok_live());
            let keep = rng.bool();
            if !keep {
                held.clear();
                check!(tok_live() == len.saturating_sub(n) as i64, "{}: {} values alive; {n} of {len} were taken and dropped", P::NAME, tok_live());
            }
            drop(it);
            check!(tok_live() == held.len() as i64, "{}: {} values alive after the iterator is dropped while {} are held", P::NAME, tok_live(), held.len());
            held.iter().for_each(|x| {
                x.val();
            });
            "partial into_iter"
        }
        6 => {
            let p = vec.into_inner();
            check!(p.len() == len, "{}: into_inner has length {} instead of {len}", P::NAME, p.len());
            check!(tok_live() == len as i64, "{}: {} values alive after into_inner of {len}", P::NAME, tok_live());
            for e in p.iter() {
                e.map(|x| x.val());
            }
            drop(p);
            "into_inner"
        }
        _ => {
            let v = ConcurrentVec::<Tok, P>::from(vec.into_inner());
            check!(v.len() == len, "{}: a vec from into_inner has length {} instead of {len}", P::NAME, v.len());
            if v.len() < v.maximum_capacity() {
                v.push(Tok::new(1));
            }
            drop(v);
            "from into_inner"
        }
    }
}

/// sequential histories; after each step exactly the values of the model are alive
fn sequential<P: Store<Tok>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    ctx.count("sequential_steps", 0);
    let sampled = ctx.wants_sample();
    let heap = heap_balance();
    let mut h = 0;
    let steps = rng.range(1, ctx.size(60, 40, 14));
    {
        let need = *rng.pick(&[3, 8, 40, 150]);
        let mut s = if rng.bool() {
            match P::tight(rng, need) {
                Some(v) => Sut::<Tok, P>::over(rng, v, vec![]),
                None => Sut::<Tok, P>::new(rng, need),
            }
        } else {
            Sut::<Tok, P>::new(rng, need)
        };
        let all: Vec<usize> = match rng.below(3) {
            0 => (0..14).collect(),
            1 => vec![0, 2, 3, 4, 12, 13],
            _ => vec![1, 4, 5, 6, 7, 9, 10, 11, 12],
        };
        for _ in 0..steps {
            s.step(rng, &all, 30);
            check!(
                tok_live() == s.model.len() as i64,
                "{}: {} values are alive but the vec has {}",
                s.what(), tok_live(), s.model.len()
            );
            if rng.chance(1, 10) && s.room() > 0 {
                // the iterator holds more than is taken
                let n = rng.below(5).min(s.room());
                let v0 = s.fresh(rng) + 1_000_000;
                s.vec.extend_n_items((0..n as u64 + 3).map(|k| Tok::new(v0 + k)).collect::<Vec<_>>(), n);
                s.model.extend((0..n as u64).map(|k| v0 + k));
                check!(tok_live() == s.model.len() as i64, "{}: {} values alive, expected {} after a longer iterator", s.what(), tok_live(), s.model.len());
            }
            let (k, x, _) = s.log[s.log.len() - 1];
            h = hash2(h, hash2(hash_str(k), x as u64));
        }
        s.verify();
        ctx.count("sequential_steps", steps as u64);
        ctx.sample(|| s.what());
        let Sut { vec, model, log, .. } = s;
        let how = take_out(vec, Some(&model), rng);
        h = hash2(h, hash_str(how));
        drop((model, log));
    }
    check!(tok_live() == 0, "{}: {} values are alive after everything was dropped", P::NAME, tok_live());
    if !sampled {
        let now = heap_balance();
        check!(
            now.0 <= heap.0,
            "{}: {} bytes in {} blocks are leaked by a vec which is gone",
            P::NAME, now.0 - heap.0, now.1 - heap.1
        );
        ctx.count("heap_balances", 1);
    }
    ctx.sig(h);
}
fn sequential_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(6) {
        0 | 1 => sequential::<Dbl<Tok>>(ctx, rng),
        2 => sequential::<Lin<Tok>>(ctx, rng),
        3 | 4 => sequential::<Fix<Tok>>(ctx, rng),
        _ => sequential::<CLin<Tok>>(ctx, rng),
    }
}

/// concurrent histories: what is not handed out is in the vec, and everything is dropped once
fn concurrent<P: Store<Tok>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let heap = heap_balance();
    let threads = rng.range(2, ctx.size(8, 5, 3));
    let calls = rng.range(3, ctx.size(150, 60, 8));
    let pre = rng.range(1, 6);
    let mut stats = (0, 0);
    {
        let mut vec = P::build(rng, pre + threads * calls * 6 + 8);
        let mut held: Vec<Tok> = vec![];
        for _ in 0..rng.range(1, 2) {
            for k in 0..pre {
                if vec.len() < 4 {
                    vec.push(Tok::new(k as u64));
                }
            }
            set_chaos(*rng.pick(&[0, 40, 120]));
            let before = vec.len();
            let jobs = (0..threads)
                .map(|t| {
                    let vec = &vec;
                    let mut rng = rng.fork(t as u64);
                    job!(move |_| {
                        tok_chaos(rng.bool());
                        let mut held = vec![];
                        let mut grown = 0;
                        for c in 0..calls {
                            let v = uniq(t, c as u64);
                            let n = vec.len();
                            let i = if rng.bool() { rng.below(n.min(3)) } else { rng.below(n) };
                            let j = rng.below(n.min(4));
                            op("call", || match rng.below(14) {
                                0 => {
                                    vec.push(Tok::new(v));
                                    grown += 1;
                                }
                                1 => {
                                    vec.push_for_idx(|_| Tok::new(v));
                                    grown += 1;
                                }
                                2 => {
                                    let n = rng.below(6);
                                    vec.extend((0..n).map(|_| Tok::new(v)).collect::<Vec<_>>());
                                    grown += n;
                                }
                                3 => {
                                    let n = rng.below(4);
                                    vec.extend_n_items((0..n + 2).map(|_| Tok::new(v)), n);
                                    grown += n;
                                }
                                4 | 5 => held.push(reach(vec, i, rng.below(WAYS), 7, |e| e.replace(Tok::new(v)))),
                                6 | 7 => reach(vec, i, rng.below(WAYS), 9, |e| e.set(Tok::new(v))),
                                8 => reach(vec, i, rng.below(WAYS), 3, |e| e.update(|x| *x = Tok::new(v))),
                                9 => {
                                    vec.swap(i, j);
                                }
                                10 => held.push(vec[i].cloned()),
                                11 => vec.slice(j..n.min(j + 3)).fill(Tok::new(v)),
                                12 => vec.slice(j..n.min(j + 3)).fill_with(|_| Tok::new(v)),
                                _ => {
                                    held.extend(vec.slice(..n.min(3)).clone_to_vec());
                                }
                            });
                        }
                        (held, grown)
                    })
                })
                .collect();
            let mut grown = 0;
            for (h, g) in par(rng.next(), jobs) {
                held.extend(h);
                grown += g;
            }
            set_chaos(0);
            let expect = before + grown;
            check!(vec.len() == expect, "{}: length is {} instead of {expect}", P::NAME, vec.len());
            let mut seen = std::collections::HashSet::new();
            for x in &held {
                x.val();
                check!(seen.insert(x.instance()), "{}: a value was handed out twice", P::NAME);
            }
            vec.iter().for_each(|e| {
                e.map(|x| {
                    x.val();
                    check!(seen.insert(x.instance()), "{}: a value is in the vec and was handed out, or is in the vec twice", P::NAME);
                })
            });
            check!(
                tok_live() == seen.len() as i64,
                "{}: {} values are alive: {} are held by callers and {} in the vec", P::NAME, tok_live(), held.len(), vec.len()
            );
            stats.0 += held.len();
            stats.1 += expect;
            match rng.below(3) {
                0 => {
                    let l = held.len();
                    vec.clear();
                    check!(tok_live() == l as i64, "{}: {} values alive after clear while {l} are held", P::NAME, tok_live());
                }
                1 => {
                    let (l, m) = (held.len() + vec.len(), vec.maximum_capacity());
                    vec.reserve_maximum_capacity(m.min(4000) + 10);
                    check!(tok_live() == l as i64, "{}: {} values alive after reserve, expected {l}", P::NAME, tok_live());
                }
                _ => {}
            }
        }
        held.clear();
        take_out(vec, None, rng);
    }
    check!(tok_live() == 0, "{}: {} values are alive after everything was dropped", P::NAME, tok_live());
    let now = heap_balance();
    check!(
        now.0 <= heap.0 + 4096,
        "{}: {} bytes in {} blocks are leaked by a vec which is gone", P::NAME, now.0 - heap.0, now.1 - heap.1
    );
    ctx.count("concurrent_values_handed_out", stats.0 as u64);
    ctx.count("concurrent_values_in_vec", stats.1 as u64);
    ctx.maximum("threads", threads as u64);
    ctx.sig(hash2(hash2(stats.0 as u64, stats.1 as u64), hash2(threads as u64, calls as u64)));
    ctx.sample(|| format!("{} {threads} threads x {calls} calls: {} values handed out, {} in the vec", P::NAME, stats.0, stats.1));
}
fn concurrent_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(6) {
        0 => concurrent::<Dbl<Tok>>(ctx, rng),
        1 => concurrent::<Lin<Tok>>(ctx, rng),
        2 => concurrent::<Fix<Tok>>(ctx, rng),
        3 => concurrent::<CDbl<Tok>>(ctx, rng),
        4 => concurrent::<CFix<Tok>>(ctx, rng),
        _ => concurrent::<CLin<Tok>>(ctx, rng),
    }
}

/// clone, collect and compare of the default vec
fn clones(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let n = rng.skewed(ctx.size(80, 60, 10));
    {
        let v: ConcurrentVec<Tok> = match rng.below(3) {
            0 => (0..n as u64).map(Tok::new).collect(),
            1 => (0..n as u64).filter(|_| true).map(Tok::new).collect(),
            _ => {
                let v = ConcurrentVec::default();
                v.extend((0..n as u64).map(Tok::new).collect::<Vec<_>>());
                v
            }
        };
        check!(tok_live() == n as i64, "{} values alive after collecting {n}", tok_live());
        let c = v.clone();
        check!(tok_live() == 2 * n as i64, "{} values alive after cloning {n}", tok_live());
        check!(v == c, "a clone differs from its original");
        let x = v.reduce(|a, b| if a.val() > b.val() { a.clone() } else { b.clone() });
        check!(tok_live() == 2 * n as i64 + x.is_some() as i64, "{} values alive after reduce of {n}", tok_live());
        drop(x);
        let _ = (v.contains(&Tok::new(5)), v.iter_cloned().take(3).count(), format!("{v:?}"));
        check!(tok_live() == 2 * n as i64, "{} values alive after queries of {n}", tok_live());
        if rng.bool() {
            drop(v);
            c.iter().for_each(|e| { e.map(|x| x.val()); });
            take_out(c, None, rng);
        } else {
            drop(c);
            v.iter().for_each(|e| { e.map(|x| x.val()); });
            take_out(v, None, rng);
        }
    }
    check!(tok_live() == 0, "{} values are alive after everything was dropped", tok_live());
    ctx.count("clones", 1);
    ctx.sig(n as u64);
}

fn main() {
    run(
        "C07",
        &[
            Scenario::new("sequential", 3, sequential_any).miri().seq(),
            Scenario::new("concurrent", 4, concurrent_any).miri(),
            Scenario::new("clones", 1, clones).miri().seq(),
            Scenario::new("gaps", 1, gaps_any).miri().seq(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C07")).seq(),
        ],
    );
}
