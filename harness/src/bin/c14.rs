use mon::growth::*;
use mon::seq::*;
use mon::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// nothing of the previous contents can be seen
fn is_empty<T: Pay, P: Store<T>>(vec: &mut ConcurrentVec<T, P>, old: usize, w: &str) {
    check!(vec.len() == 0 && vec.is_empty(), "{w}: the length is {} after clear", vec.len());
    check!(vec.iter().next().is_none() && vec.iter_cloned().next().is_none(), "{w}: iteration yields elements after clear");
    check!(vec.map(|x| x.val()).next().is_none() && vec.fold(0, |a, _| a + 1) == 0, "{w}: map or fold visits elements after clear");
    check!(vec.reduce(|a, _| a.clone()).is_none(), "{w}: reduce gives a value after clear");
    check!(vec.slice(..).is_empty() && vec.as_slice().is_empty() && vec.slice(..old).is_empty(), "{w}: slices are not empty after clear");
    check!(vec.split_first().is_none() && vec.split_last().is_none() && vec.chunks(3).len() == 0, "{w}: split gives elements after clear");
    check!(vec.clone_to_vec().is_empty(), "{w}: clone_to_vec gives values after clear");
    check!(format!("{vec:?}") == "[]", "{w}: Debug gives {vec:?} after clear");
    check!(unsafe { vec.iter_ref().next().is_none() && vec.iter_mut().next().is_none() }, "{w}: iter_ref yields values after clear");
    for i in [0, 1, old / 2, old.saturating_sub(1), old] {
        let none = vec.get(i).is_none() && vec.get_cloned(i).is_none() && vec.get_raw(i).is_none() && vec.get_raw_mut(i).is_none() && unsafe { vec.get_ref(i).is_none() && vec.get_mut(i).is_none() };
        check!(none, "{w}: position {i} is not absent after clear of {old} elements");
        check!(!vec.swap(i, 0), "{w}: swap({i}, 0) succeeded after clear");
    }
    check!(panics(|| _ = &vec[0]).is_none(), "{w}: indexing does not panic after clear");
}

/// any order of growth, updates, clear and reserve, with conversions at the end
fn histories<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let top = *rng.pick(&[0, 1, 2, 4, 5, 12, 30, 100, ctx.size(300, 200, 9)]);
    let top = match rng.chance(1, 4) {
        true => ctx.rare(rng, top, 5000),
        false => top,
    };
    let mut s = match (rng.bool(), P::tight(rng, top)) {
        (true, Some(v)) => Sut::<T, P>::over(rng, v, vec![]),
        _ => Sut::<T, P>::new(rng, top),
    };
    let mut h = hash2(hash_str(P::NAME), top as u64);
    let track = T::NAME == "token";
    for _ in 0..rng.range(2, ctx.size(12, 8, 4)) {
        let n = s.model.len();
        match rng.below(6) {
            0 | 1 => {
                let w = s.what();
                s.apply(rng, 12, 0);
                is_empty(&mut s.vec, n, &w);
                check!(!track || tok_live() == 0, "{w}: {} values are alive after clear", tok_live());
                ctx.count("clears", 1);
                h = hash2(h, n as u64);
            }
            2 => {
                // positions beyond the limit are asked for in vain
                if s.max < 3000 {
                    let room = s.room();
                    let more = room + 1 + rng.below(4);
                    let w = s.what();
                    let first = rng.below(3);
                    let r = panics(|| match first {
                        0 => s.vec.extend_n_items((0..more).map(|k| T::make(k as u64)).collect::<Vec<_>>(), more),
                        1 => s.vec.extend((0..more).map(|k| T::make(k as u64)).collect::<Vec<_>>()),
                        _ => s.vec.extend_for_idx(|_| (0..more).map(|k| T::make(k as u64)).collect::<Vec<_>>(), more),
                    });
                    check!(r.is_none(), "{w}: adding {more} items with room for {room} does not panic");
                    s.log.push(("failed extend", more, room));
                    ctx.count("failed_growths", 1);
                    // positions within the limit which the failed call had reserved remain unwritten until the vec is cleared
                    s.verify();
                    if room > 0 || rng.bool() {
                        s.apply(rng, 12, 0);
                        is_empty(&mut s.vec, n, &w);
                    } else {
                        s.apply(rng, 13, 0);
                        s.verify();
                    }
                }
            }
            3 => {
                let w = s.what();
                s.apply(rng, 13, 0);
                s.verify();
                check!(!track || tok_live() == s.model.len() as i64, "{w}: {} values alive after reserve of a vec with {}", tok_live(), s.model.len());
                ctx.count("reserves", 1);
                h = hash2(h, 77 + s.max as u64);
            }
            _ => {}
        }
        // grow and change, sometimes to the limit
        let to = match rng.below(4) {
            0 if s.max < 2000 && !MIRI => s.max,
            1 => s.model.len(),
            _ => (s.model.len() + rng.below(40)).min(s.max),
        };
        while s.model.len() < to {
            let b = (to - s.model.len()).min(60);
            s.step(rng, &GROW, b);
        }
        for _ in 0..rng.below(6) {
            s.step(rng, &UPDATE, 0);
        }
        s.verify();
        if rng.chance(1, 3) {
            let w = s.what();
            queries(&s.vec, &s.model, rng, &|| w.clone());
        }
    }
    let w = s.what();
    let Sut { vec, model, .. } = s;
    let v: Vec<u64> = match rng.below(3) {
        0 => vec.to_vec().iter().map(|x| x.val()).collect(),
        1 => vec.into_iter().map(|x| x.val()).collect(),
        _ => ConcurrentVec::<T, P>::from(vec.into_inner()).to_vec().iter().map(|x| x.val()).collect(),
    };
    check!(v == model, "{w}: converted to {:?}, expected {:?}", diff(&v, &model), diff(&model, &v));
    ctx.sig(h);
    ctx.sample(|| w.clone());
    check!(!track || tok_live() == 0, "{w}: {} values are alive after everything was dropped", tok_live());
}
fn histories_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => plain_store!(rng, histories, u64, (ctx, rng)),
        1 => plain_store!(rng, histories, Aligned, (ctx, rng)),
        2 => any_store!(rng, histories, Tok, (ctx, rng)),
        _ => plain_store!(rng, histories, Tok, (ctx, rng)),
    }
}

/// rounds of concurrent growth separated by clear and reserve
fn rounds<P: Store<Tok>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(6, 4, 3));
    let each = rng.range(1, ctx.size(80, 40, 5));
    let mut vec = match (rng.bool(), P::tight(rng, threads * each)) {
        (true, Some(v)) => v,
        _ => P::build(rng, threads * each),
    };
    let mut max = vec.maximum_capacity();
    let mut model: Vec<u64> = vec![];
    let mut h = 0;
    for round in 0..rng.range(2, ctx.size(6, 5, 3)) {
        let room = max - model.len();
        if room < threads * each {
            if rng.bool() {
                vec.clear();
                model.clear();
                is_empty(&mut vec, 5, P::NAME);
                check!(tok_live() == 0, "{}: {} values are alive after clear", P::NAME, tok_live());
                check!(vec.maximum_capacity() == max, "{}: maximum capacity {max} became {} by clear", P::NAME, vec.maximum_capacity());
                ctx.count("clears", 1);
            } else {
                let want = model.len() + threads * each + rng.below(50);
                let r = vec.reserve_maximum_capacity(want);
                check!(r >= want && r == vec.maximum_capacity(), "{}: reserve_maximum_capacity({want}) returned {r}, maximum_capacity is {}", P::NAME, vec.maximum_capacity());
                max = r;
                let c = contents(&vec);
                check!(c == model, "{}: after reserve_maximum_capacity({want}) the contents are {:?}, expected {:?}", P::NAME, diff(&c, &model), diff(&model, &c));
                ctx.count("reserves", 1);
            }
        }
        set_chaos(*rng.pick(&[0, 60]));
        let (before, b2) = (model.len(), model.clone());
        let jobs: Vec<Job<Vec<Grown>>> = (0..threads)
            .map(|t| {
                let vec = &vec;
                let mut rng = rng.fork(t as u64);
                let old = &b2;
                job!(move |_| {
                    let mut left = each;
                    let mut k = 0;
                    let mut r = vec![];
                    while left > 0 {
                        let kind = rng.below(5);
                        let n = if kind < 2 { 1 } else { rng.range(1, left.min(5)) };
                        r.push(grow_once(vec, kind, n, false, t, || { k += 1; uniq(t + 10 * round, k) }));
                        left -= n;
                        if !old.is_empty() {
                            let i = rng.below(old.len());
                            let v = vec[i].map(|x| x.val());
                            check!(v == old[i], "{}: the value at {i} changed while growing in round {round}", P::NAME);
                        }
                    }
                    r
                })
            })
            .collect();
        let grown = par(rng.next(), jobs).concat();
        set_chaos(0);
        model.resize(before + threads * each, u64::MAX);
        for g in &grown {
            for (k, v) in g.vals.iter().enumerate() {
                check!(g.begin + k >= before && g.begin + k < model.len() && model[g.begin + k] == u64::MAX,
                    "{}: position {} was handed out in round {round}, in which growth began at {before}", P::NAME, g.begin + k);
                model[g.begin + k] = *v;
                h = hash2(h, *v);
            }
        }
        let c = contents(&vec);
        check!(c == model, "{}: round {round}: the contents are {:?}, expected {:?}", P::NAME, diff(&c, &model), diff(&model, &c));
        check!(tok_live() == model.len() as i64, "{}: {} values alive, {} in the vec", P::NAME, tok_live(), model.len());
        ctx.count("rounds", 1);
    }
    let v: Vec<u64> = vec.to_vec().iter().map(|x| x.val()).collect();
    check!(v == model, "{}: to_vec gives {:?}, expected {:?}", P::NAME, diff(&v, &model), diff(&model, &v));
    ctx.sig(h);
    ctx.sample(|| format!("{} {threads} threads x {each}, {} values at the end", P::NAME, model.len()));
    check!(tok_live() == 0, "{} values are alive after everything was dropped", tok_live());
}
fn rounds_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, rounds, Tok, (ctx, rng))
}

/// reserve across a wide range of requests, on vecs which are filled to various degrees, then fill to the promise
fn promise<P: Store<u64>>(ctx: &mut Ctx, rng: &mut Rng) {
    let top = rng.below(60);
    let mut vec = P::tight(rng, top.max(1)).unwrap_or_else(|| P::build(rng, top));
    let mut m: Vec<u64> = vec![];
    for _ in 0..rng.below(vec.maximum_capacity().min(60) + 1) {
        m.push(m.len() as u64 * 3);
        vec.push(m[m.len() - 1]);
    }
    for _ in 0..rng.range(1, 3) {
        let old = vec.maximum_capacity();
        let want = match rng.below(4) {
            0 => m.len() + rng.below(4),
            1 => rng.below(100),
            2 => ctx.size(3000, 1000, 60) + rng.below(300),
            _ => old.min(3000) + rng.below(3),
        };
        let r = vec.reserve_maximum_capacity(want);
        let w = format!("{}: reserve_maximum_capacity({want}) of a vec with {} elements and maximum {old}", P::NAME, m.len());
        check!(r == vec.maximum_capacity() && r >= want && r >= old, "{w} returned {r}, maximum_capacity is {}", vec.maximum_capacity());
        let c = contents(&vec);
        check!(c == m, "{w}: the contents became {:?} instead of {:?}", diff(&c, &m), diff(&m, &c));
        let to = want.min(r).max(m.len());
        while m.len() < to {
            let n = rng.range(1, (to - m.len()).min(97));
            let a = vec.extend((0..n).map(|k| (m.len() + k) as u64 * 3).collect::<Vec<_>>());
            check!(a == m.len(), "{w}: then extend returned {a} instead of {}", m.len());
            m.extend((0..n).map(|k| (a + k) as u64 * 3));
        }
        let c = contents(&vec);
        check!(c == m && vec.len() == m.len(), "{w}: after filling it up the contents are {:?} instead of {:?}", diff(&c, &m), diff(&m, &c));
        ctx.count("promises_filled", 1);
        ctx.sig(hash2(hash2(want as u64, m.len() as u64), hash_str(P::NAME)));
        if rng.chance(1, 3) {
            vec.clear();
            check!(vec.maximum_capacity() == r, "{w}: then clear changed the maximum to {}", vec.maximum_capacity());
            m.clear();
        }
    }
}
fn promise_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, promise, u64, (ctx, rng))
}

fn main() {
    run(
        "C14",
        &[
            Scenario::new("histories", 4, histories_any).miri().seq(),
            Scenario::new("rounds", 3, rounds_any).miri(),
            Scenario::new("promise", 1, promise_any).miri().seq(),
            Scenario::new("gaps", 1, gaps_any).miri().seq(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C14")).seq(),
        ],
    );
}
