use mon::growth::*;
use mon::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// random operations on few hot elements, recorded and checked for linearizability per element
fn history<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let track = T::NAME == "token";
    let threads = rng.range(2, ctx.size(8, 6, 3));
    let hot = rng.range(1, 4);
    let calls = rng.range(3, ctx.size(150, 60, 7));
    let far = if MIRI || rng.chance(2, 3) { 20 } else { 6000 };
    let offset = rng.below(far);
    let grow = rng.chance(1, 3);
    let vec = P::build(rng, offset + hot + 8 + if grow { calls * 4 } else { 0 });
    for k in 0..(offset + hot) {
        vec.push(T::make(uniq(1 << 20, k as u64)));
    }
    set_chaos(*rng.pick(&[0, 50, 150]));
    let running = AtomicUsize::new(threads);
    let mut jobs: Vec<Job<Vec<(usize, ElemOp)>>> = vec![];
    for t in 0..threads {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(t as u64);
        jobs.push(job!(move |_| {
            tok_chaos(rng.bool());
            let mut r = Vec::with_capacity(calls);
            let mut c = 0;
            for _ in 0..calls {
                c += 1;
                let h = rng.below(hot);
                let i = offset + h;
                let new = uniq(t, c);
                let kind = rng.below(16);
                let way = rng.below(WAYS);
                let salt = rng.below(64);
                let fresh = T::make(new);
                tok_clear_last_dropped();
                let inv = now();
                let mut done = |name: &'static str, kind: OpKind| {
                    r.push((h, ElemOp { thread: t as u32, inv, ret: now(), kind, name }));
                };
                // the replaced value is known if its drop is observable
                let wrote = |name: &str| {
                    if !track {
                        return OpKind::Blind { new };
                    }
                    check!(
                        tok_dropped_here() == 1,
                        "{name} dropped {} values instead of the replaced one", tok_dropped_here()
                    );
                    OpKind::Write { old: tok_last_dropped(), new }
                };
                match kind {
                    0 | 1 => {
                        op("set", || reach(vec, i, way, salt, |e| e.set(fresh)));
                        done("set", wrote("set"));
                    }
                    2 | 3 => {
                        let old = op("replace", || reach(vec, i, way, salt, |e| e.replace(fresh)));
                        done("replace", OpKind::Write { old: old.val(), new });
                    }
                    4 => {
                        let mut old = 0;
                        op("update", || {
                            reach(vec, i, way, salt, |e| {
                                e.update(|x| {
                                    old = x.val();
                                    user(chaos_point);
                                    check!(x.val() == old, "the value changed during an update");
                                    // a value which nobody outside of this update may see
                                    x.put(uniq(t + 500, c));
                                    std::hint::black_box(&mut *x);
                                    user(chaos_point);
                                    x.put(new);
                                    user(chaos_point);
                                    check!(x.val() == new, "the value was changed by somebody else during an update");
                                })
                            })
                        });
                        done("update", OpKind::Write { old, new });
                    }
                    5 => {
                        let mut old = 0;
                        let mut fresh = Some(fresh);
                        op("update", || {
                            reach(vec, i, way, salt, |e| {
                                e.update(|x| {
                                    old = x.val();
                                    if let Some(f) = fresh.take() {
                                        *x = f;
                                    }
                                    check!(x.val() == new, "the value was changed by somebody else during an update");
                                })
                            })
                        });
                        done("update", OpKind::Write { old, new });
                    }
                    6 => {
                        let mut f = Some(fresh);
                        op("fill_with", || {
                            vec.slice(i..=i).fill_with(|_| match f.take() {
                                Some(f) => f,
                                None => violation("fill_with of one element called its closure twice"),
                            })
                        });
                        done("fill_with", wrote("fill_with"));
                    }
                    7 | 8 => {
                        let seen = op("map", || {
                            reach(vec, i, way, salt, |e| {
                                e.map(|x| {
                                    let v = x.val();
                                    user(chaos_point);
                                    check!(x.val() == v, "the value changed while it was being read by map");
                                    v
                                })
                            })
                        });
                        done("map", OpKind::Read { seen });
                    }
                    9 | 10 => {
                        let x = op("cloned", || reach(vec, i, way, salt, |e| e.cloned()));
                        done("cloned", OpKind::Read { seen: x.val() });
                    }
                    11 => {
                        let x = op("get_cloned", || vec.get_cloned(i));
                        match x {
                            Some(x) => done("get_cloned", OpKind::Read { seen: x.val() }),
                            None => violation("get_cloned of an existing element is None"),
                        }
                    }
                    12 => {
                        let x = op("iter_cloned", || vec.slice(i..i + 1).iter_cloned().next());
                        match x {
                            Some(x) => done("iter_cloned", OpKind::Read { seen: x.val() }),
                            None => violation("iter_cloned of a slice with one element is empty"),
                        }
                    }
                    13 => {
                        let x = op("copied", || reach(vec, i, way, salt, |e| T::copied_of(e)));
                        done("copied", OpKind::Read { seen: x.val() });
                    }
                    14 => {
                        let x = match salt % 2 {
                            0 => op("get_copied", || T::copied_at(vec, i)),
                            _ => op("get_copied", || T::copied_in(&vec.slice(i..=i), 0)),
                        };
                        match x {
                            Some(x) => done("get_copied", OpKind::Read { seen: x.val() }),
                            None => violation("get_copied of an existing element is None"),
                        }
                    }
                    _ => {
                        let x = op("clone_to_vec", || vec.slice(i..i + 1).clone_to_vec());
                        check!(x.len() == 1, "clone_to_vec of a slice with one element has {}", x.len());
                        done("clone_to_vec", OpKind::Read { seen: x[0].val() });
                    }
                }
            }
            running.fetch_sub(1, Relaxed);
            r
        }));
    }
    if grow {
        let (vec, running) = (&vec, &running);
        jobs.push(job!(move |_| {
            for k in 0..calls * 4 {
                if running.load(Relaxed) == 0 {
                    break;
                }
                vec.push(T::make(uniq(999, k as u64)));
            }
            vec![]
        }));
    }
    let all: Vec<(usize, ElemOp)> = par(rng.next(), jobs).into_iter().flatten().collect();
    set_chaos(0);
    let mut overlaps = 0;
    let mut h = 0;
    for k in 0..hot {
        let ops: Vec<ElemOp> = all.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
        let fin = vec[offset + k].map(|x| x.val());
        let what = format!("{} {} element {}, {threads} threads", P::NAME, T::NAME, offset + k);
        overlaps += check_element(&what, uniq(1 << 20, (offset + k) as u64), fin, &ops);
        let mut by_inv = ops.clone();
        by_inv.sort_by_key(|o| o.inv);
        for o in &by_inv {
            h = hash2(h, o.thread as u64);
        }
        ctx.count("element_histories", 1);
    }
    for k in 0..offset {
        check!(vec[k].map(|x| x.val()) == uniq(1 << 20, k as u64), "{}: an element which nobody touched changed", P::NAME);
    }
    ctx.count("element_operations", all.len() as u64);
    ctx.count("overlapping_operations", overlaps);
    ctx.maximum("threads", threads as u64);
    if overlaps > 0 {
        ctx.sig(h);
    }
    ctx.sample(|| {
        format!("{} {threads} threads on {hot} elements: {:?}", P::NAME, all.iter().take(10).map(|(k, o)| (*k, o.thread, o.name)).collect::<Vec<_>>())
    });
    drop(vec);
    check!(!track || tok_live() == 0, "{}: {} values are alive after everything was dropped", P::NAME, tok_live());
}
fn history_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(10) {
        0..=2 => any_store!(rng, history, Tok, (ctx, rng)),
        3..=5 => any_store!(rng, history, u64, (ctx, rng)),
        6 | 7 => any_store!(rng, history, Wide, (ctx, rng)),
        8 => any_store!(rng, history, Odd, (ctx, rng)),
        _ => any_store!(rng, history, String, (ctx, rng)),
    }
}

/// pure contention: no update may be lost, reads never go backwards
fn counters<P: Store<u64>>(ctx: &mut Ctx, rng: &mut Rng) {
    let threads = rng.range(2, ctx.size(8, 6, 3));
    let n = rng.range(1, 3);
    let each = ctx.size(6000, 1500, 8);
    // the counters may be far from the beginning
    let off = if MIRI || rng.chance(3, 4) { rng.below(3) } else { rng.below(3000) };
    let vec = P::build(rng, off + n);
    for _ in 0..off + n {
        vec.push(0u64);
    }
    let readers = rng.below(3);
    let running = AtomicUsize::new(threads);
    let mut jobs: Vec<Job<Vec<u64>>> = vec![];
    for t in 0..threads {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(t as u64);
        jobs.push(job!(move |_| {
            let mut added = vec![0; n];
            let mut last = vec![0u64; n];
            for _ in 0..each {
                let i = rng.below(n);
                let way = rng.below(WAYS);
                match rng.below(8) {
                    2 => {
                        let mut x = 0;
                        op("map", || reach(vec, off + i, way, 3, |e| e.map(|v| x = *v)));
                        check!(x >= last[i], "map went backwards from {} to {x} on one thread", last[i]);
                        last[i] = x;
                    }
                    0 => {
                        let x = op("copied", || reach(vec, off + i, way, 3, |e| e.copied()));
                        check!(x >= last[i], "copied went backwards from {} to {x} on one thread", last[i]);
                        last[i] = x;
                    }
                    1 => {
                        let x = op("get_copied", || vec.get_copied(off + i)).unwrap_or(0);
                        check!(x >= last[i], "get_copied went backwards from {} to {x} on one thread", last[i]);
                        last[i] = x;
                    }
                    k => {
                        let d = k as u64;
                        let mut seen = 0;
                        op("update", || reach(vec, off + i, way, 5, |e| e.update(|x| {
                            seen = *x;
                            // nobody outside of this update may see this value
                            *x = (1 << 62) + d;
                            std::hint::black_box(&mut *x);
                            if d == 7 {
                                user(chaos_point);
                            }
                            *x = seen + d;
                        })));
                        check!(seen >= last[i], "an update saw {seen} after {} had been seen on the same thread", last[i]);
                        last[i] = seen + d;
                        added[i] += d;
                    }
                }
            }
            running.fetch_sub(1, Relaxed);
            added
        }));
    }
    for _ in 0..readers {
        let (vec, running) = (&vec, &running);
        jobs.push(job!(move |_| {
            let mut last = vec![0u64; n];
            let mut k = 0u64;
            while running.load(Relaxed) > 0 && (!MIRI || k < 10) {
                k += 1;
                op("iter", || vec.iter().skip(off).enumerate().for_each(|(i, e)| {
                    let x = match k % 3 {
                        0 => e.map(|x| *x),
                        1 => e.cloned(),
                        _ => e.copied(),
                    };
                    check!(x >= last[i], "a reader saw {x} after {}", last[i]);
                    check!(x < 1 << 62, "a reader saw {x}, which is an intermediate state of an update");
                    last[i] = x;
                }));
            }
            vec![0u64; n]
        }));
    }
    let r = par(rng.next(), jobs);
    for i in 0..n {
        let sum: u64 = r.iter().map(|a| a[i]).sum();
        let x = vec[off + i].copied();
        check!(x < 1 << 62, "element {i} is left in an intermediate state: {x}");
        check!(x == sum, "{}: {threads} threads added {sum} to element {i}, but it is {x}: updates are lost", P::NAME);
    }
    ctx.count("counter_updates", (threads * each) as u64);
    ctx.sig(hash2(vec[off].copied(), hash2(threads as u64, n as u64)));
    ctx.sample(|| format!("{}: {threads} threads x {each} calls on {n} counters", P::NAME));
}
fn counters_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => counters::<Dbl<u64>>(ctx, rng),
        1 => counters::<Lin<u64>>(ctx, rng),
        2 => counters::<Fix<u64>>(ctx, rng),
        _ => counters::<CLin<u64>>(ctx, rng),
    }
}

/// every value that was put in is given back to exactly one caller
fn exchange<P: Store<Wide>>(ctx: &mut Ctx, rng: &mut Rng) {
    let threads = rng.range(2, ctx.size(8, 6, 3));
    let n = rng.range(1, 3);
    let each = ctx.size(1500, 400, 6);
    let vec = P::build(rng, n);
    for k in 0..n {
        vec.push(Wide::make(uniq(1 << 20, k as u64)));
    }
    set_chaos(*rng.pick(&[0, 0, 60]));
    let jobs = (0..threads)
        .map(|t| {
            let vec = &vec;
            let mut rng = rng.fork(t as u64);
            job!(move |_| {
                let mut out = vec![];
                for c in 0..each {
                    let i = rng.below(n);
                    let x = op("replace", || reach(vec, i, rng.below(WAYS), 1, |e| e.replace(Wide::make(uniq(t, c as u64)))));
                    out.push(x.val());
                }
                out
            })
        })
        .collect();
    let mut out: Vec<u64> = par(rng.next(), jobs).into_iter().flatten().collect();
    set_chaos(0);
    out.extend(vec.iter().map(|e| e.map(|x| x.val())));
    let mut all: Vec<u64> = (0..threads).flat_map(|t| (0..each).map(move |c| uniq(t, c as u64))).collect();
    all.extend((0..n).map(|k| uniq(1 << 20, k as u64)));
    let raw = out.clone();
    out.sort();
    all.sort();
    if out != all {
        let twice = out.windows(2).find(|w| w[0] == w[1]).map(|w| w[0]);
        let lost = all.iter().find(|v| out.binary_search(v).is_err());
        violation(format!("{}: replaced values are not returned exactly once: returned twice {twice:x?}, never returned {lost:x?}", P::NAME));
    }
    ctx.count("exchanged_values", raw.len() as u64);
    ctx.sig(raw.iter().take(200).fold(1, |h, v| hash2(h, *v)));
}
fn exchange_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => exchange::<Dbl<Wide>>(ctx, rng),
        1 => exchange::<Lin<Wide>>(ctx, rng),
        2 => exchange::<Fix<Wide>>(ctx, rng),
        _ => exchange::<CDbl<Wide>>(ctx, rng),
    }
}

/// operations which need an element that another thread holds at that moment
fn held(ctx: &mut Ctx, rng: &mut Rng) {
    busy_any(ctx, rng, &busy::SINGLE);
}

fn main() {
    run(
        "C05",
        &[
            Scenario::new("history", 5, history_any).miri(),
            Scenario::new("counters", 2, counters_any).miri(),
            Scenario::new("exchange", 2, exchange_any).miri(),
            Scenario::new("held", 1, held).miri(),
        ],
    );
}
