use mon::growth::*;
use mon::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

const OPS: usize = 34;

/// one random call of the safe api of a shared vec; the sanitizers are the oracle
fn call<T: Pay, P: Store<T>>(vec: &ConcurrentVec<T, P>, k: usize, rng: &mut Rng, room: &mut usize, n: &mut u64) {
    *n += 1;
    let v = *n;
    let len = vec.len();
    let i = match len {
        0 => 0,
        _ if rng.bool() => len - 1 - rng.below(len.min(3)),
        _ => rng.below(len),
    };
    let (way, salt) = (rng.below(WAYS), rng.below(64));
    let b = (i + rng.below(6)).min(len);
    let k = if len == 0 { k % 5 } else { k };
    match k {
        0 if *room > 0 => {
            *room -= 1;
            vec.push(T::make(v));
        }
        1 if *room > 0 => {
            *room -= 1;
            vec.push_for_idx(|i| T::make(i as u64));
        }
        2..=4 => {
            let c = rng.below(12).min(*room);
            *room -= c;
            let it = || ExactIter { it: (0..c as u64).map(|k| { user(chaos_point); T::make(v + k) }), n: c };
            match k {
                2 => vec.extend(it()),
                3 => vec.extend_for_idx(|_| it(), c),
                _ => vec.extend_n_items(it(), c),
            };
        }
        _ if len == 0 => {}
        5 | 6 => reach(vec, i, way, salt, |e| e.set(T::make(v))),
        7 => {
            reach(vec, i, way, salt, |e| e.replace(T::make(v))).val();
        }
        8 => reach(vec, i, way, salt, |e| e.update(|x| { x.val(); x.put(v) })),
        9 => reach(vec, i, way, salt, |e| e.update(|x| *x = T::make(v))),
        10 | 11 => {
            reach(vec, i, way, salt, |e| e.map(|x| { x.val(); user(chaos_point); x.val() }));
        }
        12 => {
            reach(vec, i, way, salt, |e| e.cloned()).val();
        }
        13 => {
            if let Some(x) = vec.get_cloned(i + rng.below(8)) {
                x.val();
            }
        }
        14 => {
            vec.swap(i, rng.below(len + 1));
        }
        15 => {
            vec.slice(i..).swap(0, rng.below(3));
        }
        16 => vec.slice(i..b).fill(T::make(v)),
        17 => vec.slice(i..b).fill_with(|k| T::make(k as u64)),
        18 => {
            vec.iter().for_each(|e| { e.map(|x| x.val()); });
        }
        19 => {
            vec.iter_cloned().for_each(|x| { x.val(); });
        }
        20 => {
            vec.slice(i..b).map(|x| x.val()).count();
            vec.map(|x| x.val()).take(9).count();
        }
        21 => {
            vec.filter(|x| x.val() % 2 == 0).for_each(|e| { e.map(|x| x.val()); });
        }
        22 => {
            vec.fold(0u64, |a, x| a ^ x.val());
        }
        23 => {
            if let Some(x) = vec.reduce(|a, b| if a.val() > b.val() { a.clone() } else { b.clone() }) {
                x.val();
            }
        }
        24 => {
            vec.index_of(&T::make(v));
        }
        25 => {
            vec.slice(i..).contains(&T::make(v));
        }
        26 => {
            let _ = format!("{vec:?}");
        }
        27 => {
            let _ = format!("{:?} {:?}", vec.slice(i..b), &vec[i]);
        }
        28 => {
            vec.clone_to_vec().iter().for_each(|x| { x.val(); });
        }
        29 => {
            for c in vec.chunks(3) {
                c.iter().for_each(|e| { e.map(|x| x.val()); });
            }
        }
        30 => {
            let j = rng.below(len);
            let _ = vec[i] == vec[j];
        }
        31 => {
            let x = T::make(v);
            let _ = vec[i] == x;
        }
        32 => {
            // an element and a slice which are kept while the vec grows
            let e = &vec[i];
            let s = vec.slice(..=i);
            for _ in 0..3 {
                if *room > 0 {
                    *room -= 1;
                    vec.push(T::make(v));
                }
                e.map(|x| x.val());
                s.iter().for_each(|e| { e.map(|x| x.val()); });
            }
        }
        _ => {
            let _ = (vec.capacity(), vec.maximum_capacity(), vec.is_empty(), vec.get(len + 3).is_some());
            vec.get_raw(i);
            vec.get_raw_mut(i);
        }
    }
}

fn after<T: Pay, P: Store<T>>(vec: ConcurrentVec<T, P>, rng: &mut Rng) -> Option<ConcurrentVec<T, P>> {
    let len = vec.len();
    let mut vec = vec;
    match rng.below(8) {
        0 => {
            let v = vec.to_vec();
            check!(v.len() == len, "to_vec has {} of {len} values", v.len());
            v.iter().for_each(|x| { x.val(); });
            None
        }
        1 => {
            let mut it = vec.into_iter();
            for _ in 0..rng.below(len + 1) {
                if let Some(x) = it.next() {
                    x.val();
                }
            }
            None
        }
        2 => {
            vec.clear();
            Some(vec)
        }
        3 => {
            let m = vec.maximum_capacity();
            vec.reserve_maximum_capacity(m.min(3000) + rng.below(50));
            Some(vec)
        }
        4 => Some(ConcurrentVec::from(vec.into_inner())),
        5 => {
            // dropped by another thread
            std::thread::scope(|s| {
                s.spawn(move || drop(vec));
            });
            None
        }
        _ => Some(vec),
    }
}

fn program<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(6, 5, 3));
    let phases = rng.range(1, 3);
    let calls = ctx.size(rng.range(5, 200), rng.range(5, 120), rng.range(2, 9));
    let roomy = ctx.size(60, 40, 8);
    let mut vec = P::build(rng, (threads * phases * roomy + 20) * 2);
    let mut h = 0;
    // which calls are made in this program: few kinds collide more often
    let kinds: Vec<usize> = match rng.below(3) {
        0 => (0..OPS).collect(),
        1 => (0..4).map(|_| rng.below(OPS)).collect(),
        _ => (0..8).map(|_| rng.below(OPS)).chain(0..3).collect(),
    };
    let mut total = 0;
    for _ in 0..phases {
        let pre = rng.below(6);
        for k in 0..pre {
            if vec.len() < vec.maximum_capacity() / 3 {
                vec.push(T::make(k as u64));
            }
        }
        set_chaos(*rng.pick(&[0, 0, 40, 120]));
        let jobs = (0..threads)
            .map(|t| {
                let (vec, kinds) = (&vec, &kinds);
                let mut rng = rng.fork(t as u64);
                job!(move |_| {
                    tok_chaos(rng.bool());
                    let mut room = roomy;
                    let mut n = uniq(t, 0);
                    let mut h = 0;
                    for _ in 0..calls {
                        let k = *rng.pick(kinds);
                        h = hash2(h, k as u64);
                        op("safe api call", || call(vec, k, &mut rng, &mut room, &mut n));
                    }
                    h
                })
            })
            .collect();
        for x in par(rng.next(), jobs) {
            h = hash2(h, x);
        }
        total += threads * calls;
        set_chaos(0);
        match after(vec, rng) {
            Some(v) => vec = v,
            None => vec = P::build(rng, (threads * phases * roomy + 20) * 2),
        }
    }
    drop(vec);
    check!(tok_live() == 0, "{} {}: {} values are alive after everything was dropped", P::NAME, T::NAME, tok_live());
    ctx.count("api_calls", total as u64);
    ctx.maximum("threads", threads as u64);
    ctx.sig(h);
    ctx.sample(|| format!("{} {} {threads} threads x {calls} calls x {phases} phases of kinds {kinds:?}", P::NAME, T::NAME));
}
fn program_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(5) {
        0 => plain_store!(rng, program, Wide, (ctx, rng)),
        1 => any_store!(rng, program, String, (ctx, rng)),
        2 => plain_store!(rng, program, Tok, (ctx, rng)),
        _ => any_store!(rng, program, Tok, (ctx, rng)),
    }
}

/// comparisons, clones and conversions between two vecs (default storage)
fn pairs<T: Pay>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(6, 4, 3));
    let calls = ctx.size(rng.range(5, 100), rng.range(5, 60), rng.range(2, 7));
    let n = rng.range(1, ctx.size(12, 8, 4));
    let mk = |k: usize| T::make(k as u64);
    let a: ConcurrentVec<T> = (0..n).map(mk).collect();
    let b: ConcurrentVec<T> = (0..n).map(mk).collect();
    set_chaos(*rng.pick(&[0, 40, 120]));
    let jobs = (0..threads)
        .map(|t| {
            let (mut x, mut y) = (&a, &b);
            if t % 2 == 1 {
                std::mem::swap(&mut x, &mut y);
            }
            let mut rng = rng.fork(t as u64);
            job!(move |_| {
                tok_chaos(rng.bool());
                for c in 0..calls {
                    let i = rng.below(n);
                    let j = rng.below(n);
                    let v = rng.below(3) as u64;
                    op("safe api call", || match rng.below(16) {
                        0 => {
                            let _ = x == y;
                        }
                        1 => {
                            let _ = x.slice(i..) == y.slice(i..);
                        }
                        2 => {
                            let _ = *x == y.slice(..i);
                        }
                        3 => {
                            let _ = x.slice(j..) == *y;
                        }
                        4 => {
                            let _ = x[i] == y[j];
                        }
                        5 => {
                            let _ = x == x;
                        }
                        6 => {
                            let _ = x.slice(i..) == x.slice(j..);
                        }
                        7 => {
                            let z = x.clone();
                            let _ = z == *x;
                            z.push(T::make(1));
                        }
                        8 => {
                            let z = x.clone_to_vec();
                            let _ = *x == z[..];
                            let _ = y.slice(..) == z[..];
                        }
                        9 => {
                            let z = [T::make(0), T::make(1)];
                            let _ = *x == z;
                            let _ = y.slice(0..2.min(n)) == z;
                        }
                        10 => {
                            x.swap(i, j);
                        }
                        11 => x[i].set(y[j].cloned()),
                        12 => x[i].update(|x| x.put(v)),
                        13 => {
                            x[i].replace(T::make(v)).val();
                        }
                        14 => {
                            if c % 4 == 0 {
                                x.push(T::make(v));
                            }
                        }
                        _ => {
                            let _ = x.index_of(&T::make(v));
                            let _ = format!("{y:?}");
                        }
                    });
                }
            })
        })
        .collect();
    par::<()>(rng.next(), jobs);
    set_chaos(0);
    ctx.count("pair_calls", (threads * calls) as u64);
    let h = a.iter().chain(b.iter()).fold(1, |h, e| hash2(h, e.map(|x| x.val())));
    ctx.sig(hash2(h, calls as u64));
    drop((a, b));
    check!(tok_live() == 0, "{}: {} values are alive after everything was dropped", T::NAME, tok_live());
}
fn pairs_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => pairs::<Wide>(ctx, rng),
        1 => pairs::<String>(ctx, rng),
        _ => pairs::<Tok>(ctx, rng),
    }
}

fn main() {
    run(
        "C06",
        &[
            Scenario::new("program", 4, program_any).miri(),
            Scenario::new("pairs", 2, pairs_any).miri(),
        ],
    );
}
