use mon::growth::*;
use mon::*;
use std::sync::atomic::{fence, AtomicBool, AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

const LEN_WAYS: usize = 9;
/// the length as different parts of the api tell it; true if it is a lower bound only
fn observe<T: Pay, P: Store<T>>(vec: &ConcurrentVec<T, P>, how: usize) -> (usize, &'static str, bool) {
    match how % LEN_WAYS {
        0 | 1 => (vec.len(), "len", false),
        2 => (vec.iter().count(), "iter().count", false),
        3 => (vec.as_slice().len(), "as_slice().len", false),
        4 => (vec.slice(..).len(), "slice(..).len", false),
        5 => {
            let n = vec.len();
            match vec.get(n) {
                Some(_) => (n + 1, "get", true),
                None => (n, "len", false),
            }
        }
        6 => match vec.split_last() {
            Some((e, rest)) => {
                e.map(|x| x.val());
                (rest.len() + 1, "split_last", false)
            }
            None => (0, "split_last", false),
        },
        7 => {
            let mut n = 0;
            for s in vec.chunks(7) {
                n += s.len();
            }
            (n, "chunks", false)
        }
        _ => match vec.is_empty() {
            true => (0, "is_empty", false),
            false => (1, "is_empty", true),
        },
    }
}

/// observers record the length with the time; checked offline against the growth history
fn sandwich<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let growers = rng.range(1, ctx.size(5, 4, 2));
    let observers = rng.range(1, ctx.size(3, 2, 1));
    let busy = rng.range(0, ctx.size(2, 1, 1));
    let cfg = GrowCfg {
        batches: *rng.pick(&[0, 30, 100]),
        max_batch: ctx.size(20, 10, 4),
        slow_items: rng.chance(3, 4),
    };
    let calls = rng.range(2, ctx.size(40, 20, 4));
    let plans: Vec<_> = (0..growers).map(|_| plan(rng, &cfg, calls)).collect();
    let need = plans.iter().map(|p| plan_size(p)).sum::<usize>();
    let pre = rng.skewed(ctx.size(20, 10, 3));
    let vec = P::build(rng, need + pre);
    let init = prefill(&vec, pre);
    set_chaos(*rng.pick(&[0, 60, 160]));
    let running = AtomicUsize::new(growers);
    enum Out {
        G(Vec<Grown>),
        O(Vec<LenObs>),
    }
    let mut jobs: Vec<Job<Out>> = plans
        .iter()
        .enumerate()
        .map(|(t, plan)| {
            let (vec, running) = (&vec, &running);
            job!(move |_| {
                let mut k = 0;
                let r = plan
                    .iter()
                    .map(|&(kind, n)| {
                        let mut g = grow_once(vec, kind, n, cfg.slow_items, t, || {
                            k += 1;
                            uniq(t, k)
                        });
                        // the writes of this call are visible to everybody before the clock is read
                        fence(SeqCst);
                        g.ret = now();
                        g
                    })
                    .collect();
                running.fetch_sub(1, Relaxed);
                Out::G(r)
            })
        })
        .collect();
    for o in 0..observers {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(o as u64);
        jobs.push(job!(move |_| {
            let mut r = Vec::new();
            let mut last = 0;
            loop {
                let end = running.load(Relaxed) == 0;
                let t0 = now();
                let (n, how, at_least) = op("length", || observe(vec, rng.below(LEN_WAYS)));
                fence(SeqCst);
                let t1 = now();
                if !at_least {
                    check!(n >= last, "{}: the length went from {last} to {n} ({how}) on one thread", P::NAME);
                }
                last = last.max(n);
                // everything below a reported length can be read
                if n > 0 {
                    let i = match rng.below(3) {
                        0 => n - 1,
                        _ => rng.below(n),
                    };
                    op("read", || reach(vec, i, rng.below(WAYS), rng.below(64), |e| e.map(|x| x.val())));
                }
                if r.len() < 20_000 {
                    r.push(LenObs { thread: growers + o, t0, t1, n, how, at_least });
                }
                if end || (MIRI && r.len() > 12) {
                    break;
                }
            }
            Out::O(r)
        }));
    }
    for b in 0..busy {
        // keeps elements reserved, most of all the latest ones
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(77 + b as u64);
        jobs.push(job!(move |_| {
            let mut k = 0;
            while running.load(Relaxed) > 0 && k < ctx_cap(1_000_000, 12) {
                k += 1;
                let n = vec.len();
                if n > 0 {
                    let i = n - 1 - rng.below(n.min(3));
                    op("busy", || busy_op(vec, i, &mut rng));
                }
            }
            Out::O(vec![])
        }));
    }
    let (mut ops, mut obs) = (vec![], vec![]);
    for o in par(rng.next(), jobs) {
        match o {
            Out::G(g) => ops.extend(g),
            Out::O(o) => obs.extend(o),
        }
    }
    set_chaos(0);
    let what = format!("{} {} {growers} growers {observers} observers", P::NAME, T::NAME);
    // miri: real time does not order weak memory accesses there; partial checks were made above
    if !MIRI {
        let tight = check_len(&what, init.len(), &ops, &obs);
        ctx.count("exactly_determined_lengths", tight);
    }
    check_growth(&what, &contents(&vec), &init, &ops);
    let mut h = hash2(1, obs.len() as u64);
    for o in &obs {
        h = hash2(h, o.n as u64);
    }
    let distinct = obs.windows(2).filter(|w| w[0].n != w[1].n).count();
    ctx.count("length_observations", obs.len() as u64);
    ctx.count("length_changes_seen", distinct as u64);
    if distinct > 1 {
        ctx.sig(h);
    }
    ctx.sample(|| format!("{what}: observed {:?}", obs.iter().take(20).map(|o| (o.how, o.n)).collect::<Vec<_>>()));
}

fn ctx_cap(a: usize, m: usize) -> usize {
    if MIRI {
        m
    } else {
        a
    }
}

fn busy_op<T: Pay, P: Store<T>>(vec: &ConcurrentVec<T, P>, i: usize, rng: &mut Rng) {
    let e = &vec[i];
    match rng.below(6) {
        0 | 1 => e.map(|x| {
            user(chaos_point);
            x.val();
        }),
        2 => e.update(|x| {
            user(chaos_point);
            let v = x.val();
            x.put(v)
        }),
        3 => {
            e.cloned();
        }
        4 => {
            let v = e.cloned();
            let _ = e == &v;
        }
        _ => {
            vec.swap(i, i);
        }
    }
}

fn sandwich_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, sandwich, u64, (ctx, rng)),
        1 => any_store!(rng, sandwich, Wide, (ctx, rng)),
        _ => any_store!(rng, sandwich, String, (ctx, rng)),
    }
}

/// a single grower knows the exact length at every moment, while others read and update the elements
fn exact<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let others = rng.range(1, ctx.size(4, 3, 2));
    let n = rng.range(2, ctx.size(400, 150, 8));
    // now and then, at the lengths around powers of two or at round ones
    let base = ctx.rare(rng, 0, 5000);
    let base = if base > 0 { [128, 256, 512, 1000, 1024, 2048, 3072, 4096][rng.below(8)] - rng.range(1, 40) } else { 0 };
    let n = base + n;
    let vec = P::build(rng, n + 200);
    prefill(&vec, base);
    let level = *rng.pick(&[0, 30, 120]);
    set_chaos(level);
    let done = AtomicBool::new(false);
    // published length for those who learn of it
    let told = AtomicUsize::new(0);
    let mut rng2 = rng.fork(5);
    let ways = AtomicUsize::new(0);
    let mut jobs: Vec<Job<u64>> = vec![job!(|_| {
        let mut len = base;
        let mut checks = 0u64;
        while len < n {
            let k = if rng2.chance(1, 5) { rng2.below(6) } else { 1 };
            let kind = if k == 1 { rng2.below(5) } else { rng2.range(2, 4) };
            let g = grow_once(&vec, kind, k, false, 0, || 7);
            check!(g.begin == len, "{}: the only grower got position {} at length {len}", P::NAME, g.begin);
            len += k;
            told.store(len, Release);
            // reachable at once, not only after the length was looked at
            if len > 0 && rng2.bool() {
                let (w, salt) = (rng2.below(WAYS), rng2.below(64));
                op("read", || reach(&vec, len - 1, w, salt, |e| e.map(|x| x.val())));
            }
            for _ in 0..3 {
                let how = rng2.below(LEN_WAYS);
                let (m, name, at_least) = op("length", || observe(&vec, how));
                check!(
                    if at_least { m <= len && m >= 1 } else { m == len },
                    "{}: {name} reports {m} right after the only grower's {} made the length {len}", P::NAME, g.kind
                );
                if len > 0 {
                    let w = rng2.below(WAYS);
                    op("read", || reach(&vec, len - 1, w, rng2.below(64), |e| e.map(|x| x.val())));
                    check!(vec.get(len - 1).is_some(), "{}: get({}) is None although it was pushed", P::NAME, len - 1);
                }
                check!(vec.get(len).is_none(), "{}: get({len}) is Some at length {len}", P::NAME);
                ways.fetch_or(1 << how, Relaxed);
                checks += 1;
            }
        }
        done.store(true, Relaxed);
        checks
    })];
    for o in 0..others {
        let (vec, done, told) = (&vec, &done, &told);
        let mut rng = rng.fork(100 + o as u64);
        jobs.push(job!(move |_| {
            let mut checks = 0u64;
            while !done.load(Relaxed) && checks < ctx_cap(10_000_000, 25) as u64 {
                let t = told.load(Acquire);
                if t > 0 {
                    if rng.bool() {
                        let i = t - 1 - rng.below(t.min(2));
                        op("busy", || busy_op(vec, i, &mut rng));
                    } else {
                        let how = rng.below(LEN_WAYS);
                        let (m, name, at_least) = op("length", || observe(vec, how));
                        check!(
                            m >= t || at_least,
                            "{}: {name} reports {m} on another thread which knows that {t} positions are written", P::NAME
                        );
                        op("read", || reach(vec, t - 1, rng.below(WAYS), rng.below(64), |e| e.map(|x| x.val())));
                    }
                    checks += 1;
                } else if MIRI {
                    std::thread::yield_now();
                    checks += 1;
                }
            }
            checks
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    ctx.count("exact_length_checks", r[0]);
    ctx.count("lengths_known_on_other_threads", r[1..].iter().sum());
    ctx.sig(hash2(hash2(n as u64, r[0]), hash2(r[1..].iter().sum(), ways.load(Relaxed) as u64)));
    ctx.sample(|| format!("{} {}: one grower to length {n}, {others} other threads made {:?} checks", P::NAME, T::NAME, &r[1..]));
}
fn exact_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, exact, u64, (ctx, rng)),
        1 => any_store!(rng, exact, Wide, (ctx, rng)),
        _ => any_store!(rng, exact, String, (ctx, rng)),
    }
}

/// a grower is stalled in the middle of its call: nothing at or behind the gap is counted until it is written
fn stalled<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let pre = ctx.size(40, 20, 6);
    let pre = ctx.rare(rng, pre, 3000);
    let pre = rng.skewed(pre);
    let n = ctx.size(40, 20, 5);
    let n = ctx.rare(rng, n, 3000);
    let n = rng.range(1, n);
    let produced = rng.below(n);
    let kind = if n == 1 { rng.range(1, 4) } else { rng.range(2, 4) };
    let behind: Vec<(usize, usize)> = (0..rng.below(8)).map(|_| (rng.below(5), rng.below(6))).collect();
    let vec = P::build(rng, pre + n + plan_size(&behind) + 8);
    let init = prefill(&vec, pre);
    let (reached, release) = (AtomicBool::new(false), AtomicBool::new(false));
    let what = format!("{} {}: {} of {n} stalled after {produced} at length {pre}", P::NAME, T::NAME, KINDS[kind]);
    let wait = || {
        reached.store(true, Release);
        while !release.load(Acquire) {
            std::thread::yield_now();
        }
    };
    let vals: Vec<u64> = (0..n as u64).map(|k| uniq(1, k)).collect();
    let jobs: Vec<Job<usize>> = vec![
        job!(|_| {
            let item = |k: usize, v: &u64| {
                if k == produced {
                    user(wait);
                }
                T::make(*v)
            };
            let it = || ExactIter { it: vals.iter().enumerate().map(|(k, v)| item(k, v)), n };
            op("stalled growth", || match kind {
                1 => vec.push_for_idx(|_| item(0, &vals[0])),
                2 => vec.extend(it()),
                3 => vec.extend_for_idx(|_| it(), n),
                _ => vec.extend_n_items(it(), n),
            })
        }),
        job!(|_| {
            while !reached.load(Acquire) {
                std::thread::yield_now();
            }
            let mut next = pre + n;
            let mut k = 0;
            let gap = pre + produced;
            let mut rng = Rng::new(hash2(n as u64, gap as u64));
            let verify = |next: usize, rng: &mut Rng| {
                for how in 0..LEN_WAYS {
                    let (m, name, at_least) = op("length", || observe(&vec, how));
                    check!(
                        m == gap || (at_least && m == 1 && gap >= 1),
                        "{what}: {name} reports {m} while position {gap} is not written (positions up to {next} are reserved)"
                    );
                }
                for i in gap..next {
                    check!(vec.get(i).is_none(), "{what}: get({i}) is Some while position {gap} is not written");
                }
                check!(vec.get_cloned(gap).is_none(), "{what}: get_cloned({gap}) is Some for an unwritten position");
                if gap > 0 {
                    op("read", || reach(&vec, gap - 1, rng.below(WAYS), rng.below(64), |e| e.map(|x| x.val())));
                }
            };
            verify(next, &mut rng);
            for (kind, n) in &behind {
                let g = grow_once(&vec, *kind, *n, false, 2, || {
                    k += 1;
                    uniq(2, k)
                });
                check!(g.begin == next, "{what}: growth behind the stalled call got {} instead of {next}", g.begin);
                next += g.vals.len();
                verify(next, &mut rng);
            }
            release.store(true, Release);
            next
        }),
    ];
    let r = par(rng.next(), jobs);
    check!(r[0] == pre, "{what}: returned {}", r[0]);
    let total = r[1];
    for how in 0..LEN_WAYS {
        let (m, name, at_least) = observe(&vec, how);
        check!(m == total || at_least, "{what}: {name} is {m} after all calls returned, expected {total}");
    }
    let c = contents(&vec);
    check!(c[..pre] == init[..] && c[pre..pre + n] == vals[..], "{what}: contents are wrong after the stalled call returned");
    ctx.count("stalled_growths", 1);
    ctx.count("positions_behind_a_gap", (total - pre - n) as u64);
    ctx.sig(hash2(hash2(pre as u64, n as u64), hash2(produced as u64, hash2(kind as u64, total as u64))));
    ctx.sample(|| what.clone());
}
fn stalled_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => any_store!(rng, stalled, u64, (ctx, rng)),
        _ => any_store!(rng, stalled, String, (ctx, rng)),
    }
}

/// sequential programs: the length is exact after each step
fn sequential<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let mut s = seq::Sut::<T, P>::new(rng, 300);
    let steps = rng.range(5, ctx.size(60, 40, 12));
    let mut h = 0;
    for _ in 0..steps {
        let ops: &[usize] = if rng.chance(1, 6) { &seq::EXCL } else { &[0, 1, 2, 3, 4, 6, 8] };
        s.step(rng, ops, 20);
        let n = s.model.len();
        for how in 0..LEN_WAYS {
            let (m, name, at_least) = observe(&s.vec, how);
            check!(m == n || (at_least && n >= 1 && m == 1), "{}: {name} is {m}, expected {n}", s.what());
        }
        check!(s.vec.get(n).is_none(), "{}: get({n}) is Some at length {n}", s.what());
        h = hash2(h, n as u64);
        ctx.count("sequential_lengths", 1);
    }
    s.verify();
    ctx.sig(h);
}
fn sequential_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store!(rng, sequential, u64, (ctx, rng))
}

/// what was returned as written is reachable as the very first look at the vec since then
fn fresh<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = ctx.size(900, 500, 12);
    let n = ctx.rare(rng, n, 20_000);
    let n = if rng.chance(1, 3) { ctx.size(5000, 2000, n) } else { n };
    let n = rng.range(1, n);
    let vec = P::build(rng, n + 60);
    // also looks at round positions
    let edges = rng.bool();
    let batch = *rng.pick(&[0, 8, 50]);
    // most programs look rarely, some do always
    let (looks, others) = (*rng.pick(&[0, 0, 5, 50, 100]), *rng.pick(&[0, 30, 100]));
    let (mut len, mut k, mut checks) = (0, 0, 0u64);
    let x = |e: &ConcurrentElement<T>| e.map(|x| x.val());
    while len < n {
        let m = if rng.chance(batch, 100) { rng.range(1, 40) } else { 1 };
        let kind = if m == 1 { rng.below(5) } else { rng.range(2, 4) };
        let g = grow_once(&vec, kind, m, false, 0, || {
            k += 1;
            uniq(1, k)
        });
        check!(g.begin == len, "{}: the only grower got position {} at length {len}", P::NAME, g.begin);
        len += g.vals.len();
        let edge = edges && g.begin.next_multiple_of(64) < len && rng.bool();
        if rng.below(100) >= looks as usize && !edge {
            continue;
        }
        let i = if edge {
            g.begin.next_multiple_of(64)
        } else if rng.bool() { len - 1 } else { g.begin + rng.below(g.vals.len()) };
        let want = g.vals[i - g.begin];
        let way = if rng.below(100) < others { rng.range(1, 15) } else { 0 };
        let (got, how) = match way {
            0 | 1 => (vec.get(i).map(x), "get"),
            2 => (Some(x(&vec[i])), "index"),
            3 => (vec.get_cloned(i).map(|v| v.val()), "get_cloned"),
            4 => (T::copied_at(&vec, i).map(|v| v.val()), "get_copied"),
            5 => (unsafe { vec.get_ref(i) }.map(|v| v.val()), "get_ref"),
            6 => (vec.slice(i..).get(0).map(x), "slice(i..)"),
            7 => (vec.slice(..=i).get(i).map(x), "slice(..=i)"),
            8 => (Some(x(&vec.slice(i..i + 1)[0])), "slice(i..i + 1)"),
            9 => (vec.split_at(i).1.get(0).map(x), "split_at"),
            10 => (vec.split_last().and_then(|(e, r)| if i == len - 1 { Some(x(e)) } else { r.get(i).map(x) }), "split_last"),
            11 => (vec.as_slice().get(i).map(x), "as_slice"),
            12 => {
                let v = vec.slice(i..=i).clone_to_vec();
                (v.first().map(|v| v.val()), "clone_to_vec")
            }
            13 => {
                // exchanges it with another one and back
                let j = rng.below(i + 1);
                check!(vec.swap(i, j) && vec.swap(j, i), "{} {}: swap({i}, {j}) returned false at length {len}", P::NAME, T::NAME);
                (vec.get(i).map(x), "get")
            }
            14 => (vec.chunks(i + 1).next().and_then(|s| s.get(i).map(x)), "chunks"),
            _ => (vec.split_first().and_then(|(e, r)| if i == 0 { Some(x(e)) } else { r.get(i - 1).map(x) }), "split_first"),
        };
        check!(got == Some(want), "{} {}: {how} of {i} gives {got:x?} instead of {want:x} right after it was returned by {}", P::NAME, T::NAME, g.kind);
        checks += 1;
        if !edge && rng.chance(1, 4) {
            check!(vec.get(len).is_none() && vec.get_cloned(len).is_none(), "{} {}: position {len} is present at length {len}", P::NAME, T::NAME);
        }
    }
    let how = rng.below(LEN_WAYS);
    let (m, name, at_least) = observe(&vec, how);
    check!(m == len || (at_least && m >= 1), "{} {}: {name} is {m} instead of {len}", P::NAME, T::NAME);
    check!(vec.len() == len, "{} {}: the length is {} instead of {len}", P::NAME, T::NAME, vec.len());
    ctx.count("unobserved_growths", (looks == 0) as u64);
    ctx.count("fresh_positions", checks);
    ctx.sig(hash2(hash_str(P::NAME), hash2(len as u64, checks)));
    ctx.sample(|| format!("{} {}: {checks} looks at new positions up to length {len}", P::NAME, T::NAME));
}
fn fresh_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, fresh, u64, (ctx, rng)),
        1 => any_store!(rng, fresh, Wide, (ctx, rng)),
        _ => any_store!(rng, fresh, String, (ctx, rng)),
    }
}

/// operations which need an element that another thread holds at that moment
fn held(ctx: &mut Ctx, rng: &mut Rng) {
    busy_any(ctx, rng, &[busy::Need::Views, busy::Need::GetCloned, busy::Need::Push]);
}

fn main() {
    run(
        "C03",
        &[
            Scenario::new("sandwich", 4, sandwich_any).miri(),
            Scenario::new("exact", 4, exact_any).miri(),
            Scenario::new("stalled", 2, stalled_any).miri(),
            Scenario::new("sequential", 1, sequential_any).miri().seq(),
            Scenario::new("fresh", 1, fresh_any).miri().seq(),
            Scenario::new("held", 1, held).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C03")),
        ],
    );
}
