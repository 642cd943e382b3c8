use mon::growth::*;
use mon::seq::*;
use mon::*;
use std::cell::RefCell;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// sequential: exactly the window, in order, with indices relative to the window, replaced values dropped
fn exact<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let n = match rng.below(4) {
        0 => rng.below(4),
        1 => *rng.pick(&[4, 5, 12, 13, 28, 60]),
        _ => rng.skewed(ctx.size(300, 150, 14)),
    };
    let mut s = Sut::<T, P>::new(rng, n + 8);
    while s.model.len() < n {
        s.step(rng, &GROW, n - s.model.len());
    }
    let track = T::NAME == "token";
    for _ in 0..rng.range(1, ctx.size(6, 5, 3)) {
        let (a, b) = match rng.below(4) {
            0 => (0, n),
            _ => s.window(rng),
        };
        // sometimes a window of a window
        let (c, d) = match rng.below(3) {
            0 => { let (x, y) = (rng.below(b - a + 1), rng.below(b - a + 1)); (x.min(y), x.max(y)) }
            _ => (0, b - a),
        };
        let how = rng.below(3);
        let v = (rng.next() >> 20) | (1 << 45);
        let (lo, hi) = if how == 2 { (0, n) } else { (a + c, a + d) };
        let w = format!("{} {} of {n} elements, {} of the window {lo}..{hi}", P::NAME, T::NAME, ["slice", "slice", "vec"][how]);
        let order = RefCell::new(vec![]);
        let drops = tok_drops();
        let with = rng.bool();
        if with {
            let vec = &s.vec;
            let mut f = |k: usize| {
                order.borrow_mut().push(k);
                // all elements before have their new values, all others the old ones
                if k < hi - lo {
                    let x = vec[lo + k].map(|x| x.val());
                    check!(x == s.model[lo + k], "{w}: fill_with asks for the value of {k} when it is {x:x}, which it did not have before");
                    if k > 0 {
                        let x = vec[lo + k - 1].map(|x| x.val());
                        check!(x == v + k as u64 - 1, "{w}: fill_with asks for the value of {k} before {} was written", k - 1);
                    }
                }
                T::make(v + k as u64)
            };
            match how {
                2 => s.vec.fill_with(&mut f),
                _ => s.vec.slice(a..b).slice(c..d).fill_with(&mut f),
            }
            let o = order.into_inner();
            check!(o == (0..hi - lo).collect::<Vec<_>>(), "{w}: fill_with called its closure with {:?}.. ({} times)", &o[..o.len().min(8)], o.len());
            for (k, x) in s.model[lo..hi].iter_mut().enumerate() {
                *x = v + k as u64;
            }
        } else {
            match how {
                2 => s.vec.fill(T::make(v)),
                _ => s.vec.slice(a..b).slice(c..d).fill(T::make(v)),
            }
            s.model[lo..hi].iter_mut().for_each(|x| *x = v);
        }
        if track {
            check!(tok_live() == n as i64, "{w}: {} values are alive, the vec has {n}", tok_live());
            // the value which was given to fill is dropped as well, unless it is moved in (and so are clones that are made on the way)
            let extra = tok_drops() - drops;
            let m = (hi - lo) as u64;
            check!(extra == m || !with && extra >= m, "{w}: {extra} values were dropped while {m} were replaced");
        }
        s.log.push((if with { "fill_with" } else { "fill" }, lo, hi));
        s.verify();
        ctx.count("elements_filled", (hi - lo) as u64);
        ctx.sig(hash2(hash2(n as u64, lo as u64), hash2(hi as u64, how as u64)));
        if rng.chance(1, 3) {
            s.step(rng, &UPDATE, 0);
        }
    }
    ctx.sample(|| s.what());
    drop(s);
    check!(!track || tok_live() == 0, "{} values are alive after everything was dropped", tok_live());
}
fn exact_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => plain_store!(rng, exact, Odd, (ctx, rng)),
        1 => plain_store!(rng, exact, String, (ctx, rng)),
        2 => plain_store!(rng, exact, Tok, (ctx, rng)),
        _ => any_store!(rng, exact, Tok, (ctx, rng)),
    }
}

/// the vec grows in the course of the fill, by the closure itself or by a thread which it waits for
fn growing_meanwhile<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let n = rng.skewed(ctx.size(60, 40, 8));
    let per = rng.range(1, 3);
    let vec = P::build(rng, n + n * per + 4);
    prefill(&vec, n);
    let on_slice = rng.bool();
    let (a, b) = if on_slice { let (x, y) = (rng.below(n + 1), rng.below(n + 1)); (x.min(y), x.max(y)) } else { (0, n) };
    let how = rng.below(3);
    let w = format!("{} {} {} of {a}..{b} of {n} elements, {per} more are added {}", P::NAME, T::NAME,
        ["fill_with", "fill_with", "fill"][how], ["by the closure at each step", "by another thread at each step", "by the first clone"][how]);
    let added = RefCell::new(0u64);
    let grow = |vec: &ConcurrentVec<T, P>| {
        for _ in 0..per {
            let k = *added.borrow();
            *added.borrow_mut() += 1;
            vec.push(T::make(uniq(5, k)));
        }
    };
    let mut calls = 0;
    let value = |k: usize| uniq(77, k as u64);
    let full = rng.bool();
    let f = |k: usize| {
        check!(k == calls, "{w}: the closure is called for {k} in call {calls}");
        check!(calls < b - a, "{w}: the closure is called more than {} times", b - a);
        calls += 1;
        match how {
            0 => grow(&vec),
            _ => {
                let (vec, grow) = (&vec, &added);
                let from = *grow.borrow();
                std::thread::scope(|s| {
                    s.spawn(move || (0..per as u64).for_each(|j| { vec.push(T::make(uniq(5, from + j))); }));
                });
                *grow.borrow_mut() += per as u64;
            }
        }
        T::make(value(k))
    };
    op("fill", || match (on_slice, how) {
        (true, 2) => vec.slice(a..b).fill(T::make(value(0))),
        (false, 2) => vec.fill(T::make(value(0))),
        (true, _) if full && b == n => vec.slice(a..).fill_with(f),
        (true, _) => vec.slice(a..b).fill_with(f),
        (false, _) => vec.fill_with(f),
    });
    if how < 2 {
        check!(calls == b - a, "{w}: the closure was called {calls} times instead of {}", b - a);
    } else {
        grow(&vec);
    }
    let c = contents(&vec);
    let m = *added.borrow() as usize;
    check!(c.len() == n + m, "{w}: {} elements instead of {}", c.len(), n + m);
    for (i, v) in c.iter().enumerate() {
        let e = match i {
            i if a <= i && i < b => value(if how < 2 { i - a } else { 0 }),
            i if i < n => uniq(1 << 20, i as u64),
            i => uniq(5, (i - n) as u64),
        };
        check!(*v == e, "{w}: element {i} is {v:x} instead of {e:x}");
    }
    ctx.count("growth_within_a_fill", m as u64);
    ctx.sig(hash2(hash2(n as u64, a as u64), hash2(b as u64, how as u64)));
    ctx.sample(|| w.clone());
    drop(vec);
    check!(T::NAME != "token" || tok_live() == 0, "{} values are alive after everything was dropped", tok_live());
}
fn growing_meanwhile_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => plain_store!(rng, growing_meanwhile, Odd, (ctx, rng)),
        1 => plain_store!(rng, growing_meanwhile, String, (ctx, rng)),
        _ => any_store!(rng, growing_meanwhile, Tok, (ctx, rng)),
    }
}

/// concurrent fills of disjoint and overlapping windows during growth and swaps outside of the windows
fn concurrent<P: Store<Tok>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let n = rng.range(1, ctx.size(60, 30, 8));
    let threads = rng.range(2, ctx.size(6, 4, 3));
    let rounds = rng.range(1, ctx.size(12, 8, 3));
    let grow = rng.below(ctx.size(80, 40, 4));
    let disjoint = rng.bool();
    let vec = P::build(rng, n + grow + 2);
    let init = prefill(&vec, n);
    set_chaos(*rng.pick(&[0, 60, 150]));
    // windows
    let mut cuts: Vec<usize> = (0..threads * 2).map(|_| rng.below(n + 1)).collect();
    cuts.sort();
    let win: Vec<(usize, usize)> = (0..threads)
        .map(|t| match disjoint {
            true => (cuts[2 * t], cuts[2 * t + 1]),
            false => {
                let (a, b) = (rng.below(n + 1), rng.below(n + 1));
                (a.min(b), a.max(b))
            }
        })
        .collect();
    // value = (filler + 1) << 40 | round << 24 | index + 1 (0 for fill)
    let mut jobs: Vec<Job<Vec<(bool, u64)>>> = vec![];
    for (t, &(a, b)) in win.iter().enumerate() {
        let vec = &vec;
        let mut rng = rng.fork(t as u64);
        jobs.push(job!(move |_| {
            let mut log = vec![];
            for r in 0..rounds {
                let base = (t as u64 + 1) << 40 | (r as u64) << 24;
                let with = rng.bool();
                let before = tok_dropped_here();
                op("fill", || {
                    let s = vec.slice(a..b);
                    if with {
                        let mut next = 0;
                        s.fill_with(|k| {
                            check!(k == next, "{}: fill_with of {a}..{b} asks for {k} after {next} calls", P::NAME);
                            next += 1;
                            user(chaos_point);
                            Tok::new(base | (k as u64 + 1))
                        });
                        check!(next == b - a, "{}: fill_with of {a}..{b} called its closure {next} times", P::NAME);
                    } else {
                        s.fill(Tok::new(base));
                    }
                });
                let d = tok_dropped_here() - before;
                let m = (b - a) as u64;
                check!(d == m || !with && d == m + 1, "{}: a fill of {m} elements dropped {d} values", P::NAME);
                if disjoint {
                    // nobody else writes here
                    for k in 0..b - a {
                        let e = if with { base | (k as u64 + 1) } else { base };
                        let v = vec[a + k].map(|x| x.val());
                        check!(v == e, "{}: after a fill of {a}..{b}, which no other one overlaps, element {} is {v:x} instead of {e:x}", P::NAME, a + k);
                    }
                }
                log.push((with, base));
            }
            log
        }));
    }
    {
        let vec = &vec;
        jobs.push(job!(move |_| {
            for k in 0..grow {
                op("push", || vec.push(Tok::new(uniq(1 << 15, k as u64))));
                chaos_point();
            }
            vec![]
        }));
    }
    let logs = par(rng.next(), jobs);
    set_chaos(0);
    let c = contents(&vec);
    check!(c.len() == n + grow, "{}: {} elements instead of {}", P::NAME, c.len(), n + grow);
    let mut h = 0;
    let mut contested = 0;
    for (i, v) in c.iter().enumerate() {
        if i >= n {
            check!(*v == uniq(1 << 15, (i - n) as u64), "{}: the pushed element {i} is {v:x}", P::NAME);
            continue;
        }
        let fillers: Vec<usize> = (0..threads).filter(|t| win[*t].0 <= i && i < win[*t].1).collect();
        contested += (fillers.len() > 1) as u64;
        if fillers.is_empty() {
            check!(*v == init[i], "{}: element {i} is outside of all windows {win:?} and became {v:x}", P::NAME);
            continue;
        }
        // the last value of one of the fillers which cover it
        let ok = fillers.iter().any(|t| match logs[*t].last() {
            Some((true, base)) => *v == base | ((i - win[*t].0) as u64 + 1),
            Some((false, base)) => v == base,
            None => false,
        });
        check!(ok, "{}: element {i} is {v:x}, which none of the last fills covering it (of {win:?}) gives", P::NAME);
        h = hash2(h, *v);
    }
    check!(tok_live() == (n + grow) as i64, "{}: {} values are alive, {} in the vec", P::NAME, tok_live(), n + grow);
    ctx.count("concurrent_fills", (threads * rounds) as u64);
    ctx.count("contested_elements", contested);
    ctx.sig(h);
    ctx.sample(|| format!("{} {threads} threads, windows {win:?} of {n} elements, {grow} pushes", P::NAME));
    drop(vec);
    check!(tok_live() == 0, "{} values are alive after everything was dropped", tok_live());
}
fn concurrent_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, concurrent, Tok, (ctx, rng))
}

/// a fill of the whole vec during growth: what existed at the call is overwritten once, each later element at most once
fn growing<P: Store<Tok>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let growers = rng.range(1, ctx.size(3, 3, 2));
    let each = rng.range(2, ctx.size(100, 50, 6));
    let pre = rng.below(10);
    let vec = P::build(rng, pre + growers * each + 2);
    prefill(&vec, pre);
    set_chaos(*rng.pick(&[0, 60, 150]));
    let mut jobs: Vec<Job<Option<(usize, Vec<usize>, usize, bool)>>> = vec![];
    for g in 0..growers {
        let vec = &vec;
        jobs.push(job!(move |_| {
            for k in 0..each {
                op("push", || vec.push_for_idx(|_| { user(chaos_point); Tok::new(uniq(g + 1000, k as u64)) }));
            }
            None
        }));
    }
    {
        let vec = &vec;
        let with = rng.bool();
        let on_slice = rng.bool();
        jobs.push(job!(move |_| {
            chaos_point();
            let n = vec.len();
            let mut order = vec![];
            op("fill", || match (with, on_slice) {
                (true, true) => vec.as_slice().fill_with(|k| { order.push(k); Tok::new(k as u64 + 1) }),
                (true, false) => vec.fill_with(|k| { order.push(k); Tok::new(k as u64 + 1) }),
                (false, true) => vec.as_slice().fill(Tok::new(5)),
                (false, false) => vec.fill(Tok::new(5)),
            });
            Some((n, order, vec.len(), with))
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    // what was pushed after the fill had begun is not part of the window
    let Some((n, order, n2, with)) = r.into_iter().flatten().next() else { return };
    let c = contents(&vec);
    let filled = c.iter().take_while(|v| **v < 1 << 20).count();
    check!(n <= filled && filled <= n2, "{}: a fill of a growing vec covers {filled} elements, while the length was {n} before and {n2} after it", P::NAME);
    check!(c[filled..].iter().all(|v| *v >= 1 << 20), "{}: a fill wrote elements beyond an element which it did not write", P::NAME);
    if with {
        check!(order == (0..filled).collect::<Vec<_>>(), "{}: fill_with was called with {:?}.. ({} times) for {filled} elements", P::NAME, &order[..order.len().min(8)], order.len());
    }
    for (k, v) in c[..filled].iter().enumerate() {
        check!(*v == if with { k as u64 + 1 } else { 5 }, "{}: the filled element {k} is {v:x}", P::NAME);
    }
    check!(tok_live() == c.len() as i64, "{}: {} values are alive, {} in the vec", P::NAME, tok_live(), c.len());
    ctx.count("fills_during_growth", 1);
    ctx.sig(hash2(hash2(n as u64, filled as u64), c.len() as u64));
    ctx.sample(|| format!("{}: {filled} elements filled when the length grew from {n} to {n2}", P::NAME));
}
fn growing_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, growing, Tok, (ctx, rng))
}

/// operations which need an element that another thread holds at that moment
fn held(ctx: &mut Ctx, rng: &mut Rng) {
    busy_any(ctx, rng, &busy::FILLS);
}

fn main() {
    run(
        "C19",
        &[
            Scenario::new("exact", 3, exact_any).miri().seq(),
            Scenario::new("concurrent", 3, concurrent_any).miri(),
            Scenario::new("growing", 2, growing_any).miri(),
            Scenario::new("growing_meanwhile", 1, growing_meanwhile_any).miri(),
            Scenario::new("held", 1, held).miri(),
            Scenario::new("gaps", 1, gaps_any).miri().seq(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C19")).seq(),
        ],
    );
}
