use mon::growth::*;
use mon::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

fn addr<T, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(vec: &ConcurrentVec<T, P>, i: usize) -> (usize, usize) {
    let e = match vec.get(i) {
        Some(e) => e as *const ConcurrentElement<T> as usize,
        None => violation(format!("get({i}) is None for an existing element")),
    };
    let p = match vec.get_raw(i) {
        Some(p) => p as usize,
        None => violation(format!("get_raw({i}) is None for an existing element")),
    };
    (e, p)
}

/// addresses are recorded when a push returns and compared during and after growth
fn addresses<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let threads = rng.range(2, ctx.size(6, 4, 3));
    let each = rng.range(2, ctx.size(120, 60, 7));
    let vec = P::build(rng, threads * each * 4 + 4);
    let pre = rng.below(4);
    prefill(&vec, pre);
    set_chaos(*rng.pick(&[0, 40, 120]));
    type Known = (Vec<(usize, (usize, usize), u64)>, u64);
    let jobs: Vec<Job<Known>> = (0..threads)
        .map(|t| {
            let vec = &vec;
            let mut rng = rng.fork(t as u64);
            job!(move |_| {
                let mut known: Vec<(usize, (usize, usize), u64)> = vec![];
                let mut checks = 0u64;
                let mut k = 0;
                for _ in 0..each {
                    let kind = rng.below(5);
                    let n = rng.below(4);
                    let g = grow_once(vec, kind, n, true, t, || { k += 1; uniq(t, k) });
                    // is it reachable already? (an earlier position might be missing yet)
                    for (j, v) in g.vals.iter().enumerate() {
                        if vec.len() > g.begin + j {
                            known.push((g.begin + j, addr(vec, g.begin + j), *v));
                        }
                    }
                    for _ in 0..3.min(known.len()) {
                        let (i, a, v) = known[rng.below(known.len())];
                        let b = op("address", || addr(vec, i));
                        check!(a == b, "{}: the element at {i} moved from {a:x?} to {b:x?} while the vec grew", P::NAME);
                        // paths lead to the same element
                        let e = reach(vec, i, rng.below(WAYS), rng.below(64), |e| e as *const _ as usize);
                        check!(e == a.0, "{}: different paths to position {i} lead to different elements", P::NAME);
                        let x = unsafe { vec.get_ref(i) };
                        match x {
                            Some(x) => check!(x.val() == v && x as *const T as usize == a.1, "{}: get_ref({i}) refers to the value {:x} at another place, expected {v:x}", P::NAME, x.val()),
                            None => violation(format!("{}: get_ref({i}) is None for an existing element", P::NAME)),
                        }
                        checks += 1;
                    }
                }
                (known, checks)
            })
        })
        .collect();
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let mut all: Vec<usize> = vec![];
    for (known, checks) in &r {
        for (i, a, v) in known {
            check!(*a == addr(&vec, *i), "{}: the element at {i} moved while the vec grew", P::NAME);
            check!(vec[*i].map(|x| x.val()) == *v, "{}: the value at {i} changed", P::NAME);
            all.push(a.1);
        }
        ctx.count("address_checks", *checks);
    }
    let n = all.len();
    all.sort();
    all.dedup();
    check!(all.len() == n, "{}: two positions share an address", P::NAME);
    for w in all.windows(2) {
        check!(w[1] - w[0] >= std::mem::size_of::<T>(), "{}: two values overlap in memory", P::NAME);
    }
    ctx.count("addresses", n as u64);
    ctx.sig(hash2(n as u64, vec.len() as u64));
    ctx.sample(|| format!("{} {} {threads} threads, {n} addresses", P::NAME, T::NAME));
}
fn addresses_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, addresses, u64, (ctx, rng)),
        1 => any_store!(rng, addresses, Wide, (ctx, rng)),
        _ => any_store!(rng, addresses, Aligned, (ctx, rng)),
    }
}

/// direct access never misses an element which other threads are reading through the safe api
fn presence<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(1, ctx.size(40, 20, 5));
    let readers = rng.range(1, ctx.size(4, 3, 1));
    let direct = rng.range(1, ctx.size(3, 2, 1));
    let grow = rng.bool();
    let each = ctx.size(300, 100, 6);
    let vec = P::build(rng, n + each * 2 + 8);
    let init = prefill(&vec, n);
    set_chaos(*rng.pick(&[0, 60, 160]));
    let running = AtomicUsize::new(direct);
    let mut jobs: Vec<Job<u64>> = vec![];
    for r in 0..readers {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(r as u64);
        jobs.push(job!(move |_| {
            let mut k = 0u64;
            while running.load(Relaxed) > 0 && (!MIRI || k < 12) {
                k += 1;
                let i = rng.below(n);
                op("read", || match rng.below(5) {
                    0 | 1 => {
                        reach(vec, i, rng.below(WAYS), 3, |e| e.map(|x| { user(chaos_point); x.val() }));
                    }
                    2 => {
                        vec.get_cloned(i);
                    }
                    3 => {
                        vec.iter_cloned().count();
                    }
                    _ => {
                        let v = T::make(1);
                        let _ = vec[i] == v;
                    }
                });
            }
            0u64
        }));
    }
    if grow {
        let (vec, running) = (&vec, &running);
        jobs.push(job!(move |_| {
            for k in 0..each {
                if running.load(Relaxed) == 0 {
                    break;
                }
                op("push", || vec.push(T::make(uniq(99, k as u64))));
                chaos_point();
            }
            0u64
        }));
    }
    for d in 0..direct {
        let (vec, running, init) = (&vec, &running, &init);
        let mut rng = rng.fork(50 + d as u64);
        jobs.push(job!(move |_| {
            let mut checks = 0u64;
            for _ in 0..each {
                let i = rng.below(n);
                let (a, b) = (rng.below(i + 1), i + 1);
                let len = vec.len();
                op("direct access", || unsafe {
                    let ok = |x: Option<&T>, how: &str| match x {
                        Some(x) => check!(x.val() == init[i], "{}: {how}({i}) refers to {:x}, expected {:x}", P::NAME, x.val(), init[i]),
                        None => violation(format!("{}: {how}({i}) is None for a written element which others are reading", P::NAME)),
                    };
                    match rng.below(10) {
                        0 => ok(vec.get_ref(i), "get_ref"),
                        1 => ok(vec.get_raw(i).map(|p| &*p), "get_raw"),
                        2 => ok(vec.get_raw_mut(i).map(|p| &*(p as *const T)), "get_raw_mut"),
                        3 => ok(vec.slice(a..).get_ref(i - a), "slice.get_ref"),
                        4 => ok(vec.slice(a..b).get_raw(i - a).map(|p| &*p), "slice.get_raw"),
                        5 => ok(vec.slice(a..b).get_raw_mut(i - a).map(|p| &*(p as *const T)), "slice.get_raw_mut"),
                        6 => {
                            // never skips an element, yields them in order
                            let mut k = 0;
                            for x in vec.iter_ref() {
                                if k < n {
                                    check!(x.val() == init[k], "{}: iter_ref yields {:x} at {k}, expected {:x}", P::NAME, x.val(), init[k]);
                                }
                                k += 1;
                            }
                            check!(k >= len, "{}: iter_ref yields {k} values of a vec with {len} or more", P::NAME);
                        }
                        7 => {
                            let s = vec.slice(a..b);
                            let v: Vec<u64> = s.iter_ref().map(|x| x.val()).collect();
                            check!(v == init[a..b], "{}: iter_ref of the slice {a}..{b} yields {v:x?} instead of {:x?}", P::NAME, &init[a..b]);
                        }
                        8 => {
                            let s = vec.slice(a..b);
                            let i = rng.beyond(b - a);
                            check!(s.get_ref(i).is_none() && s.get_raw(i).is_none() && s.get_raw_mut(i).is_none() && s.get_mut(i).is_none(),
                                "{}: direct access to position {i} of a slice of length {} is not None", P::NAME, b - a);
                        }
                        _ => {
                            // nobody ever gets there
                            let far = match rng.bool() {
                                true => n + each + 1 + rng.below(1000),
                                false => rng.beyond(n + each + 1),
                            };
                            check!(vec.get_ref(far).is_none() && vec.get_raw(far).is_none() && vec.get_raw_mut(far).is_none() && vec.get_mut(far).is_none(),
                                "{}: direct access to the unwritten position {far} is not None", P::NAME);
                        }
                    }
                });
                checks += 1;
            }
            running.fetch_sub(1, Relaxed);
            checks
        }));
    }
    let r: u64 = par(rng.next(), jobs).iter().sum();
    set_chaos(0);
    ctx.count("direct_accesses", r);
    ctx.sig(hash2(hash2(n as u64, readers as u64), hash2(vec.len() as u64, hash_str(P::NAME))));
    ctx.sample(|| format!("{} {}: {r} direct accesses to {n} elements beside {readers} readers", P::NAME, T::NAME));
}
fn presence_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, presence, u64, (ctx, rng)),
        1 => any_store!(rng, presence, Wide, (ctx, rng)),
        _ => any_store!(rng, presence, String, (ctx, rng)),
    }
}

/// values written through mutable direct access are what safe reads return
fn writes<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(1, ctx.size(4, 3, 2));
    let per = rng.range(1, ctx.size(12, 8, 3));
    let rounds = ctx.size(40, 15, 3);
    let n = threads * per;
    let grow = ctx.size(100, 50, 4);
    let vec = P::build(rng, n + grow);
    prefill(&vec, n);
    set_chaos(*rng.pick(&[0, 50]));
    let mut jobs: Vec<Job<Vec<u64>>> = (0..threads)
        .map(|t| {
            let vec = &vec;
            let mut rng = rng.fork(t as u64);
            job!(move |_| {
                // this thread alone touches the values of its window
                let (a, b) = (t * per, t * per + per);
                let s = vec.slice(a..b);
                let mut model: Vec<u64> = (a..b).map(|i| vec[i].map(|x| x.val())).collect();
                for k in 0..rounds {
                    let i = rng.below(per);
                    let v = uniq(t, (k * 100) as u64);
                    op("direct write", || unsafe {
                        let m = |x: Option<&mut T>, how: &str| match x {
                            Some(x) => {
                                check!(x.val() == model[i], "{}: {how} refers to {:x}, expected {:x}", P::NAME, x.val(), model[i]);
                                x.put(v)
                            }
                            None => violation(format!("{}: {how} is None for an existing element", P::NAME)),
                        };
                        match rng.below(6) {
                            0 => { m(vec.get_mut(a + i), "get_mut"); model[i] = v }
                            1 => { m(s.get_mut(i), "slice.get_mut"); model[i] = v }
                            2 => { m(vec.get_raw_mut(a + i).map(|p| &mut *p), "get_raw_mut"); model[i] = v }
                            3 => { m(s.get_raw_mut(i).map(|p| &mut *p), "slice.get_raw_mut"); model[i] = v }
                            4 => {
                                let mut j = 0;
                                for x in s.iter_mut() {
                                    check!(j < per && x.val() == model[j], "{}: slice.iter_mut yields {:x} at {j} of {per}", P::NAME, x.val());
                                    *x = T::make(v + j as u64);
                                    model[j] = v + j as u64;
                                    j += 1;
                                }
                                check!(j == per, "{}: slice.iter_mut yields {j} of {per} elements", P::NAME);
                            }
                            _ => {
                                // safe writes are seen by direct reads
                                vec[a + i].set(T::make(v));
                                model[i] = v;
                                match vec.get_ref(a + i) {
                                    Some(x) => check!(x.val() == v, "{}: get_ref sees {:x} after {v:x} was set", P::NAME, x.val()),
                                    None => violation(format!("{}: get_ref is None for an existing element", P::NAME)),
                                }
                            }
                        }
                    });
                    let x = reach(vec, a + i, [0, 1, 4, 5][rng.below(4)], rng.below(9), |e| e.map(|x| x.val()));
                    check!(x == model[i], "{}: a safe read of {} gives {x:x} after {:x} was written directly", P::NAME, a + i, model[i]);
                }
                model
            })
        })
        .collect();
    let v2 = &vec;
    jobs.push(job!(move |_| {
        for k in 0..grow {
            op("push", || v2.push(T::make(k as u64)));
        }
        vec![]
    }));
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let expect: Vec<u64> = r.concat();
    let c = contents(&vec);
    check!(c[..n] == expect[..], "{}: directly written values are {:?}, expected {:?}", P::NAME, seq::diff(&c[..n], &expect), seq::diff(&expect, &c[..n]));
    // exclusive: all of the vec
    unsafe {
        let len = vec.len();
        let mut k = 0;
        for x in vec.iter_mut() {
            check!(k < len && x.val() == c[k], "{}: iter_mut yields {:x} at {k}", P::NAME, x.val());
            x.put(k as u64 + 7);
            k += 1;
        }
        check!(k == len, "{}: iter_mut yields {k} of {len} elements", P::NAME);
        let c = contents(&vec);
        check!(c.iter().enumerate().all(|(k, v)| *v == k as u64 + 7), "{}: values written through iter_mut are not at their positions", P::NAME);
    }
    ctx.count("direct_writes", (threads * rounds) as u64);
    ctx.sig(expect.iter().fold(1, |h, v| hash2(h, *v)));
    ctx.sample(|| format!("{} {}: {threads} threads, windows of {per}", P::NAME, T::NAME));
}
fn writes_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, writes, u64, (ctx, rng)),
        1 => any_store!(rng, writes, Wide, (ctx, rng)),
        _ => any_store!(rng, writes, Tok, (ctx, rng)),
    }
}

/// pushes that returned are found although an earlier growth call has not finished yet
fn behind<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let pre = rng.skewed(ctx.size(40, 20, 5));
    let gap = rng.range(1, ctx.size(30, 15, 4));
    let more = rng.range(1, ctx.size(60, 30, 5));
    let kind = rng.below(4);
    let at = rng.below(gap);
    let vec = P::build(rng, pre + gap + more + 2);
    let mut model: Vec<Option<u64>> = prefill(&vec, pre).into_iter().map(Some).collect();
    gates_reset();
    set_chaos(*rng.pick(&[0, 60]));
    let (gap, at) = if kind == 0 { (1, 0) } else { (gap, at) };
    let what = format!("{} {}: {} of {gap} items stalled at item {at} on length {pre}", P::NAME, T::NAME, ["push_for_idx", "extend", "extend_for_idx", "extend_n_items"][kind]);
    for k in 0..gap {
        model.push((k < at).then(|| uniq(7, k as u64)));
    }
    let seed = rng.next();
    let jobs: Vec<Job<u64>> = vec![
        job!(|_| {
            let item = |k: usize| {
                if k == at {
                    stall_at(0);
                }
                T::make(uniq(7, k as u64))
            };
            let it = || ExactIter { it: (0..gap).map(item), n: gap };
            op("growth", || match kind {
                0 => vec.push_for_idx(|_| item(0)),
                1 => vec.extend(it()),
                2 => vec.extend_for_idx(|_| it(), gap),
                _ => vec.extend_n_items(it(), gap),
            });
            0u64
        }),
        job!(|_| {
            use std::sync::atomic::Ordering::{Acquire, Release};
            let mut rng = Rng::new(seed);
            wait_for(|| GATES[0].arrived.load(Acquire) == 1);
            let mut k = 0;
            let mut checks = 0u64;
            let mut model = model.clone();
            while k < more as u64 {
                let n = rng.below(6).min(more - k as usize);
                let g = grow_once(&vec, rng.below(5), n, false, 8, || { k += 1; uniq(8, k) });
                check!(g.begin == model.len(), "{what}: {} behind it returned {} instead of {}", g.kind, g.begin, model.len());
                model.extend(g.vals.iter().map(|v| Some(*v)));
                for _ in 0..4 {
                    let i = match rng.below(3) {
                        0 => rng.below(model.len() + 3),
                        1 => pre + rng.below(gap),
                        _ => (pre + gap + rng.below(k as usize + 1)).min(model.len()),
                    };
                    let e = model.get(i).copied().flatten();
                    // nobody else accesses the values behind the gap
                    let (a, b, c, d) = op("direct access", || unsafe {
                        (
                            vec.get_ref(i).map(|x| x.val()),
                            vec.get_mut(i).map(|x| x.val()),
                            vec.get_raw(i).map(|x| (*x).val()),
                            vec.get_raw_mut(i).map(|x| (*x).val()),
                        )
                    });
                    check!((a, b, c, d) == (e, e, e, e), "{what}, {} behind it: get_ref / get_mut / get_raw / get_raw_mut({i}) give {a:x?} / {b:x?} / {c:x?} / {d:x?}, expected {e:x?}", model.len() - pre - gap);
                    checks += 4;
                    if let (Some(x), true) = (unsafe { vec.get_mut(i) }, rng.chance(1, 4)) {
                        x.put(uniq(9, i as u64));
                        model[i] = Some(uniq(9, i as u64));
                    }
                }
                // in order, each once, including the ones behind the gap
                let all: Vec<u64> = model.iter().flatten().copied().collect();
                let m = rng.bool();
                let seen: Vec<u64> = unsafe {
                    match m {
                        true => vec.iter_mut().map(|x| x.val()).collect(),
                        false => vec.iter_ref().map(|x| x.val()).collect(),
                    }
                };
                check!(seen == all, "{what}: {} yields {:?} of {:?}", if m { "iter_mut" } else { "iter_ref" }, seq::diff(&seen, &all), seq::diff(&all, &seen));
            }
            GATES[0].open.store(1, Release);
            checks
        }),
    ];
    let r = par(rng.next(), jobs);
    set_chaos(0);
    ctx.count("accesses_behind_a_gap", r[1]);
    ctx.sig(hash2(hash2(pre as u64, gap as u64), hash2(at as u64, hash2(more as u64, kind as u64))));
    ctx.sample(|| what.clone());
}
fn behind_any(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    match rng.below(4) {
        0 => any_store!(rng, behind, Odd, (ctx, rng)),
        1 => any_store!(rng, behind, String, (ctx, rng)),
        2 => any_store!(rng, behind, Wide, (ctx, rng)),
        _ => any_store!(rng, behind, Tok, (ctx, rng)),
    }
}

fn main() {
    run(
        "C08",
        &[
            Scenario::new("addresses", 3, addresses_any).miri(),
            Scenario::new("presence", 3, presence_any).miri(),
            Scenario::new("writes", 2, writes_any).miri(),
            Scenario::new("behind", 2, behind_any).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C08")).seq(),
        ],
    );
}
