use mon::growth::*;
use mon::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// every value tells at which position it was stored
fn enc(i: usize, seq: u64) -> u64 {
    ((i as u64) << 32) | (seq & 0xffff_ffff)
}
fn at(v: u64, i: usize, how: &str) {
    check!(
        (v >> 32) as usize == i,
        "{how} at position {i} delivered the value {v:x} which was stored at position {}",
        v >> 32
    );
}

const READS: usize = 21;
/// reads around position i by every kind of query; returns the number of values seen
fn read<T: Pay, P: Store<T>>(vec: &ConcurrentVec<T, P>, i: usize, how: usize, rng: &mut Rng, direct: bool) -> u64 {
    let mut n = 0;
    let mut see = |x: &T, i: usize, how: &str| {
        at(x.val(), i, how);
        n += 1;
    };
    let win = |rng: &mut Rng| {
        let l = vec.len();
        let a = rng.below(l + 1);
        let b = (a + rng.below(12)).min(l);
        (a, b)
    };
    match how % READS {
        0 => {
            if let Some(x) = vec.get_cloned(i) {
                see(&x, i, "get_cloned")
            }
        }
        1 => {
            if let Some(e) = vec.get(i) {
                e.map(|x| see(x, i, "get.map"))
            }
        }
        2 => {
            if let Some(e) = vec.get(i) {
                see(&e.cloned(), i, "get.cloned")
            }
        }
        3 => vec.iter().enumerate().for_each(|(i, e)| e.map(|x| see(x, i, "iter"))),
        4 => vec.iter_cloned().enumerate().for_each(|(i, x)| see(&x, i, "iter_cloned")),
        5 => {
            vec.fold(0, |i, x| {
                see(x, i, "fold");
                i + 1
            });
        }
        6 => {
            let (a, b) = win(rng);
            let s = vec.slice(a..b);
            check!(s.iter().count() == b - a, "the iterator of a slice of {} elements yields another number", b - a);
            s.iter().enumerate().for_each(|(k, e)| e.map(|x| see(x, a + k, "slice.iter")));
        }
        7 => {
            let (a, b) = win(rng);
            vec.slice(a..b).iter_cloned().enumerate().for_each(|(k, x)| see(&x, a + k, "slice.iter_cloned"));
        }
        8 => {
            let (a, _) = win(rng);
            let s = vec.slice(a..);
            for k in 0..s.len() {
                match s.get_cloned(k) {
                    Some(x) => see(&x, a + k, "slice.get_cloned"),
                    None => violation("a position of a slice is absent"),
                }
            }
        }
        9 => vec.clone_to_vec().iter().enumerate().for_each(|(i, x)| see(x, i, "clone_to_vec")),
        10 => {
            let mut k = 0;
            for c in vec.chunks(5) {
                for e in c.iter() {
                    e.map(|x| see(x, k, "chunks"));
                    k += 1;
                }
            }
        }
        11 => {
            // the accumulated value is a clone of the first one, later ones are visited in order
            let mut k = 1;
            let r = vec.reduce(|a, b| {
                a.val();
                see(b, k, "reduce");
                k += 1;
                b.clone()
            });
            if let Some(r) = r {
                at(r.val(), k - 1, "result of reduce");
            }
        }
        12 => {
            let k = std::cell::Cell::new(0);
            vec.map(|x| x.val()).for_each(|v| {
                at(v, k.get(), "map");
                k.set(k.get() + 1);
            });
            n += k.get() as u64;
        }
        13 => {
            let mut k = 0;
            let c = vec.filter(|x| {
                at(x.val(), k, "filter");
                k += 1;
                true
            });
            n += c.count() as u64;
        }
        14 => {
            let text = format!("{vec:?}");
            let vals = parse_debug::<T>(&text);
            vals.iter().enumerate().for_each(|(k, v)| at(*v, k, "debug formatting"));
            n += vals.len() as u64;
        }
        15 => {
            if let Some((e, rest)) = vec.split_last() {
                let k = rest.len();
                e.map(|x| see(x, k, "split_last"));
            }
            if let Some((e, rest)) = vec.split_first() {
                e.map(|x| see(x, 0, "split_first"));
                if let Some(e) = rest.get(0) {
                    e.map(|x| see(x, 1, "split_first.1"))
                }
            }
        }
        16 => {
            let mut k = 0;
            let never = T::make(enc(0x7fff_ffff, 0));
            check!(!vec.contains(&never), "a value was found which nobody stored");
            for e in vec.iter() {
                let _ = *e == never;
                k += 1;
            }
            n += k;
        }
        20 => {
            if let Some(x) = T::copied_at(vec, i) {
                see(&x, i, "get_copied")
            }
            if let Some(e) = vec.get(i) {
                see(&T::copied_of(e), i, "get.copied")
            }
        }
        // direct references require that nobody updates the elements
        17 if direct => {
            if let Some(x) = unsafe { vec.get_ref(i) } {
                see(x, i, "get_ref")
            }
        }
        18 if direct => unsafe {
            let l = vec.len();
            vec.iter_ref().take(l).enumerate().for_each(|(i, x)| see(x, i, "iter_ref"));
        },
        19 if direct => {
            let (a, b) = win(rng);
            unsafe { vec.slice(a..b).iter_ref().enumerate().for_each(|(k, x)| see(x, a + k, "slice.iter_ref")) }
            if let Some(p) = vec.get_raw(i) {
                see(unsafe { &*p }, i, "get_raw")
            }
        }
        _ => {
            let l = vec.len();
            if l > 0 {
                let i = rng.below(l);
                reach(vec, i, rng.below(WAYS), rng.below(64), |e| e.map(|x| see(x, i, "element")));
            }
        }
    }
    n
}

/// logical values of a debug-formatted vec
fn parse_debug<T: Pay>(text: &str) -> Vec<u64> {
    let inner = match text.strip_prefix('[').and_then(|t| t.strip_suffix(']')) {
        Some(t) => t,
        None => violation(format!("debug formatting is {text:.60}")),
    };
    if inner.is_empty() {
        return vec![];
    }
    inner
        .split(", ")
        .map(|t| {
            let t = t.trim_matches('"').split('#').next().unwrap_or("");
            match t.parse::<u64>() {
                Ok(v) => v,
                Err(_) => violation(format!("debug formatting contains {t:.60}")),
            }
        })
        .collect()
}

/// growers and updaters store values which know their position; readers verify everything they get
fn positions<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let growers = rng.range(1, ctx.size(4, 3, 2));
    let updaters = if rng.bool() { rng.range(1, ctx.size(3, 2, 1)) } else { 0 };
    let readers = rng.range(1, ctx.size(4, 3, 2));
    let total = rng.range(3, ctx.size(400, 150, 12));
    let maxb = ctx.size(30, 15, 4);
    let pre = rng.below(total.min(20));
    let vec = P::build(rng, total + pre + growers * (maxb + 1));
    for i in 0..pre {
        vec.push(T::make(enc(i, 0)));
    }
    set_chaos(*rng.pick(&[0, 40, 140]));
    let running = AtomicUsize::new(growers);
    let reserved = AtomicUsize::new(pre);
    let mut jobs: Vec<Job<(u64, u64)>> = vec![];
    for g in 0..growers {
        let (vec, running, reserved) = (&vec, &running, &reserved);
        let mut rng = rng.fork(g as u64);
        jobs.push(job!(move |_| {
            let slow = rng.bool();
            let item = |i: usize| {
                if slow {
                    user(chaos_point);
                }
                T::make(enc(i, 1))
            };
            let mut calls = 0u64;
            while reserved.load(Relaxed) < total + pre {
                calls += 1;
                if rng.below(3) > 0 {
                    let i = op("push_for_idx", || vec.push_for_idx(item));
                    reserved.fetch_max(i + 1, Relaxed);
                } else {
                    let n = rng.below(maxb + 1);
                    let i = op("extend_for_idx", || {
                        vec.extend_for_idx(|b| ExactIter { it: (b..b + n).map(item), n }, n)
                    });
                    reserved.fetch_max(i + n, Relaxed);
                }
            }
            running.fetch_sub(1, Relaxed);
            (0u64, calls)
        }));
    }
    for u in 0..updaters {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(50 + u as u64);
        jobs.push(job!(move |_| {
            let mut k = 0;
            while running.load(Relaxed) > 0 && (!MIRI || k < 15) {
                k += 1;
                let n = vec.len();
                if n == 0 {
                    continue;
                }
                let i = if rng.bool() { n - 1 } else { rng.below(n) };
                let new = enc(i, k << 8 | u as u64);
                op("update", || {
                    reach(vec, i, rng.below(WAYS), rng.below(64), |e| match rng.below(5) {
                        0 => e.set(T::make(new)),
                        1 => at(e.replace(T::make(new)).val(), i, "replace"),
                        2 => e.update(|x| {
                            at(x.val(), i, "update");
                            x.put(new)
                        }),
                        3 => e.update(|x| {
                            at(x.val(), i, "update");
                            *x = T::make(new)
                        }),
                        _ => {
                            let s = vec.slice(i..i + 1);
                            s.fill_with(|_| T::make(new))
                        }
                    })
                });
            }
            (0u64, k)
        }));
    }
    for r in 0..readers {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(90 + r as u64);
        jobs.push(job!(move |_| {
            let mut n = 0;
            let mut k = 0;
            loop {
                let end = running.load(Relaxed) == 0;
                k += 1;
                let l = vec.len();
                let i = match rng.below(4) {
                    0 => l + rng.below(4),
                    1 => l.saturating_sub(1),
                    2 => rng.below(l + 1),
                    // far beyond
                    _ => l + rng.below(total * 2 + 100),
                };
                n += op("read", || read(vec, i, rng.below(READS), &mut rng, updaters == 0));
                if end || (MIRI && k > 15) {
                    break;
                }
            }
            (n, 0u64)
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let mut quiet = 0;
    for how in 0..READS {
        quiet += read(&vec, rng.below(total), how, rng, true);
    }
    let values: u64 = r.iter().map(|x| x.0).sum();
    ctx.count("values_verified", values + quiet);
    ctx.count("stores", r.iter().map(|x| x.1).sum());
    ctx.sig(hash2(values, hash2(vec.len() as u64, r.iter().map(|x| x.1).sum())));
    ctx.sample(|| {
        format!("{} {}: {growers} growers to {} positions, {updaters} updaters, {readers} readers verified {values} values", P::NAME, T::NAME, vec.len())
    });
}
fn positions_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(6) {
        0 => any_store!(rng, positions, Odd, (ctx, rng)),
        1 | 2 => any_store!(rng, positions, Wide, (ctx, rng)),
        3 => any_store!(rng, positions, String, (ctx, rng)),
        4 => any_store!(rng, positions, Aligned, (ctx, rng)),
        _ => any_store!(rng, positions, Tok, (ctx, rng)),
    }
}

/// positions that are reserved but not written are reported as absent by everything
fn unwritten<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let pre = rng.skewed(ctx.size(30, 20, 5));
    let n = rng.range(1, ctx.size(30, 20, 5));
    let kind = rng.range(2, 4);
    let vec = P::build(rng, pre + n + 40);
    for i in 0..pre {
        vec.push(T::make(enc(i, 0)));
    }
    let step = AtomicUsize::new(0);
    let seen = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let what = format!("{} {}: {} of {n} at length {pre}", P::NAME, T::NAME, KINDS[kind]);
    let jobs: Vec<Job<u64>> = vec![
        job!(|_| {
            // hand-shake before each item
            let item = |k: usize| {
                user(|| {
                    step.store(k + 1, Release);
                    while seen.load(Acquire) < k + 1 {
                        std::thread::yield_now();
                    }
                });
                T::make(enc(pre + k, 1))
            };
            let it = || ExactIter { it: (0..n).map(item), n };
            op("growth", || match kind {
                2 => vec.extend(it()),
                3 => vec.extend_for_idx(|_| it(), n),
                _ => vec.extend_n_items(it(), n),
            });
            stop.store(true, Release);
            0u64
        }),
        job!(|_| {
            let mut rng = Rng::new(hash2(pre as u64, n as u64));
            let mut checks = 0u64;
            for k in 0..n {
                while step.load(Acquire) < k + 1 {
                    std::thread::yield_now();
                }
                // exactly the first k items are written
                for i in (pre + k)..(pre + n + 3) {
                    check!(vec.get(i).is_none(), "{what}: get({i}) is Some after {k} items");
                    check!(vec.get_cloned(i).is_none(), "{what}: get_cloned({i}) is Some after {k} items");
                    check!(vec.get_raw(i).is_none(), "{what}: get_raw({i}) is Some after {k} items");
                    check!(vec.get_raw_mut(i).is_none(), "{what}: get_raw_mut({i}) is Some after {k} items");
                    unsafe {
                        check!(vec.get_ref(i).is_none(), "{what}: get_ref({i}) is Some after {k} items");
                        check!(vec.get_mut(i).is_none(), "{what}: get_mut({i}) is Some after {k} items");
                    }
                    check!(!vec.swap(i, 0), "{what}: swap({i}, 0) succeeded after {k} items");
                    check!(!vec.swap(0, i), "{what}: swap(0, {i}) succeeded after {k} items");
                    checks += 1;
                }
                check!(panics(|| _ = &vec[pre + k]).is_none(), "{what}: indexing an unwritten position does not panic");
                let count = unsafe { vec.iter_ref().count() };
                check!(count == pre + k, "{what}: iter_ref yields {count} values after {k} items");
                let count = unsafe { vec.iter_mut().count() };
                check!(count == pre + k, "{what}: iter_mut yields {count} values after {k} items");
                for how in 0..READS {
                    let i = rng.below(pre + n + 2);
                    op("read", || read(&vec, i, how, &mut rng, true));
                }
                check!(vec.iter().count() == pre + k && vec.fold(0, |n, _| n + 1) == pre + k && vec.clone_to_vec().len() == pre + k,
                    "{what}: traversals cover another number of elements than {} after {k} items", pre + k);
                // windows of every kind end where the written prefix ends
                let p = pre + k;
                let whole = |s: ConcurrentSlice<'_, T, P>, a: usize, b: usize, how: &dyn std::fmt::Debug| {
                    check!(s.len() == b - a && s.iter().count() == b - a, "{what}: {how:?} after {k} items has length {} instead of {}", s.len(), b - a);
                    check!(s.get(b - a).is_none() && s.get_cloned(b - a).is_none() && s.get_raw(b - a).is_none(), "{what}: {how:?} after {k} items exposes a position beyond its end");
                    s.iter().enumerate().for_each(|(j, e)| e.map(|x| at(x.val(), a + j, "element of a slice")));
                    if b > a {
                        match T::copied_in(&s, b - a - 1) {
                            Some(x) => at(x.val(), b - 1, "last element of a slice"),
                            None => violation(format!("{what}: the last element of {how:?} is absent after {k} items")),
                        }
                    }
                };
                op("slices", || {
                    for _ in 0..if MIRI { 2 } else { 8 } {
                        let r = match rng.bool() {
                            true => Ran::random(&mut rng, p),
                            false => Ran::random(&mut rng, pre + n),
                        };
                        match r.limits(p) {
                            Some((a, b)) => {
                                let s = vec.v_slice(r);
                                check!(s.len() == b - a, "{what}: {r:?} after {k} items has length {} instead of {}", s.len(), b - a);
                                whole(s, a, b, &r);
                                let s = vec.v_slice(r);
                                let r2 = Ran::random(&mut rng, b - a);
                                if let Some((c, d)) = r2.limits(b - a) {
                                    whole(s.v_slice(r2), a + c, a + d, &(r, r2));
                                }
                            }
                            None => {}
                        }
                        checks += 1;
                    }
                    whole(vec.as_slice(), 0, p, &"as_slice");
                    let m = rng.below(p + 1);
                    let (l, r) = vec.split_at(m);
                    whole(l, 0, m, &("left of split_at", m));
                    whole(r, m, p, &("right of split_at", m));
                    match vec.split_first() {
                        Some((e, s)) => { e.map(|x| at(x.val(), 0, "split_first")); whole(s, 1, p, &"rest of split_first") }
                        None => check!(p == 0, "{what}: split_first is None after {k} items"),
                    }
                    match vec.split_last() {
                        Some((e, s)) => { e.map(|x| at(x.val(), p - 1, "split_last")); whole(s, 0, p - 1, &"rest of split_last") }
                        None => check!(p == 0, "{what}: split_last is None after {k} items"),
                    }
                    let c = rng.range(1, p + 2);
                    let mut b = 0;
                    for s in vec.chunks(c) {
                        let l = s.len();
                        whole(s, b, (b + c).min(p), &("chunk", b / c));
                        b += l;
                    }
                    check!(b == p, "{what}: the chunks cover {b} positions after {k} items");
                });
                check!(panics(|| vec.split_at(p + 1).0.len()).is_none(), "{what}: split_at({}) does not panic after {k} items", p + 1);
                if pre + k > 0 {
                    let i = rng.below(pre + k);
                    match op("get_cloned", || vec.get_cloned(i)) {
                        Some(x) => at(x.val(), i, "get_cloned"),
                        None => violation(format!("{what}: get_cloned({i}) is None although it is written")),
                    }
                }
                seen.store(k + 1, Release);
            }
            checks
        }),
    ];
    let r = par(rng.next(), jobs);
    ctx.count("absent_positions_verified", r[1]);
    ctx.sig(hash2(hash2(pre as u64, n as u64), hash2(kind as u64, hash_str(P::NAME))));
    ctx.sample(|| what.clone());
}
fn unwritten_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, unwritten, Wide, (ctx, rng)),
        1 => any_store!(rng, unwritten, Odd, (ctx, rng)),
        _ => any_store!(rng, unwritten, Tok, (ctx, rng)),
    }
}

/// operations which need an element that another thread holds at that moment
fn held(ctx: &mut Ctx, rng: &mut Rng) {
    busy_any(ctx, rng, &busy::READS);
}

fn main() {
    run(
        "C04",
        &[
            Scenario::new("positions", 4, positions_any).miri(),
            Scenario::new("unwritten", 1, unwritten_any).miri(),
            Scenario::new("held", 1, held).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C04")),
        ],
    );
}
