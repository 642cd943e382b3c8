use mon::seq::*;
use mon::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// slices of slices, each compared with the same window of the ordinary vector
fn windows<T: Pay, P: Store<T>, V: View<T, P>>(v: &V, m: &[u64], rng: &mut Rng, depth: usize, w: &dyn Fn() -> String) -> u64 {
    let mut done = queries(v, m, rng, w);
    if depth > 0 {
        for _ in 0..rng.range(1, 2) {
            let r = Ran::random(rng, m.len());
            let (a, b) = r.limits(m.len()).unwrap_or((0, 0));
            let s = v.v_slice(r);
            done += windows(&s, &m[a..b], rng, depth - 1, &|| format!("{} slice {r:?}", w()));
        }
    }
    done
}

/// builds a vec in one of many ways and compares all queries with an ordinary vector, again after more steps
fn quiescent<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let sizes = [0, 1, 3, 4, 5, 12, 30, 70, ctx.size(700, 300, 20)];
    let usual = *rng.pick(&sizes);
    let top = if rng.chance(1, 6) { ctx.rare(rng, usual, 9000) } else { usual };
    let mut s = match (rng.below(4), P::tight(rng, top + 3)) {
        (0, Some(v)) => Sut::<T, P>::over(rng, v, vec![]),
        _ => Sut::<T, P>::new(rng, top + 3),
    };
    s.dups = rng.chance(1, 3);
    if rng.chance(1, 4) {
        // over a pinned vector with values
        let n = rng.below(top + 1);
        let mut p = P::build(rng, top + 3).into_inner();
        let vals: Vec<u64> = (0..n).map(|_| s.fresh(rng)).collect();
        vals.iter().for_each(|v| p.push(ConcurrentElement::from(ConcurrentOption::some(T::make(*v)))));
        s = Sut::over(rng, ConcurrentVec::from(p), vals);
        s.next = 1 << 50;
    }
    let rounds = rng.range(1, 3);
    let mut h = hash_str(P::NAME);
    for _ in 0..rounds {
        for _ in 0..rng.range(0, ctx.size(25, 15, 5)) {
            if s.model.len() < top {
                s.step(rng, &GROW, (top - s.model.len()).min(60));
            }
            s.step(rng, &UPDATE, 0);
        }
        if s.model.len() < top && rng.bool() && !MIRI {
            while s.model.len() < top && s.room() > 0 {
                s.apply(rng, 0, 0);
            }
        }
        if rng.chance(1, 6) {
            let k = 12 + rng.below(2);
            s.apply(rng, k, 0);
        }
        let w = || s.what();
        let done = windows(&s.vec, &s.model, rng, ctx.size(3, 2, 1), &w);
        ctx.count("queries", done);
        ctx.maximum("length", s.model.len() as u64);
        h = s.model.iter().fold(hash2(h, s.model.len() as u64), |h, v| hash2(h, *v));
    }
    ctx.sig(h);
    ctx.sample(|| format!("{} elements: {}", s.model.len(), s.what()));
    drop(s);
    check!(tok_live() == 0 || T::NAME != "token", "{} values are alive after everything was dropped", tok_live());
}
fn quiescent_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(8) {
        0 => plain_store!(rng, quiescent, u64, (ctx, rng)),
        1 => plain_store!(rng, quiescent, Odd, (ctx, rng)),
        6 | 7 => plain_store!(rng, quiescent, Loose, (ctx, rng)),
        2 => plain_store!(rng, quiescent, String, (ctx, rng)),
        3 => plain_store!(rng, quiescent, Aligned, (ctx, rng)),
        4 => plain_store!(rng, quiescent, Tok, (ctx, rng)),
        _ => any_store!(rng, quiescent, Wide, (ctx, rng)),
    }
}

/// after concurrent growth and updates have ended, all queries and all paths agree with each other
fn settled<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(6, 4, 2));
    let calls = rng.range(2, ctx.size(60, 25, 4));
    let vec = P::build(rng, threads * calls * 6 + 4);
    set_chaos(*rng.pick(&[0, 60]));
    let plans: Vec<_> = (0..threads)
        .map(|_| growth::plan(rng, &growth::GrowCfg { batches: 40, max_batch: 6, slow_items: false }, calls))
        .collect();
    let jobs: Vec<Job<Vec<Grown>>> = plans
        .iter()
        .enumerate()
        .map(|(t, plan)| {
            let vec = &vec;
            let mut rng = rng.fork(t as u64);
            job!(move |_| {
                let mut k = 0;
                plan.iter()
                    .map(|&(kind, n)| {
                        let g = growth::grow_once(vec, kind, n, false, t, || { k += 1; uniq(t, k) });
                        let n = vec.len();
                        if n > 1 {
                            vec.swap(rng.below(n), rng.below(n));
                            let s = vec.slice(rng.below(n)..n);
                            let _ = (s.contains(&T::make(1)), s.index_of(&T::make(2)), s.iter_cloned().take(3).count());
                        }
                        g
                    })
                    .collect()
            })
        })
        .collect();
    let grown = par(rng.next(), jobs).concat();
    set_chaos(0);
    let m = growth::contents(&vec);
    let mut found = m.clone();
    let mut given: Vec<u64> = grown.iter().flat_map(|g| g.vals.clone()).collect();
    found.sort();
    given.sort();
    check!(found == given, "{}: the values are not those which were added: {:?} and {:?}", P::NAME, seq::diff(&found, &given), seq::diff(&given, &found));
    let done = windows(&vec, &m, rng, ctx.size(3, 2, 1), &|| format!("{} {} after concurrent growth", P::NAME, T::NAME));
    ctx.count("queries_after_concurrency", done);
    ctx.sig(m.iter().fold(9, |h, v| hash2(h, *v)));
    ctx.sample(|| format!("{} {}: {} elements from {threads} threads, {done} queries", P::NAME, T::NAME, m.len()));
}
use growth::uniq;
fn settled_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => any_store!(rng, settled, u64, (ctx, rng)),
        1 => any_store!(rng, settled, String, (ctx, rng)),
        _ => any_store!(rng, settled, Wide, (ctx, rng)),
    }
}

/// values without size, counted by their drops
#[derive(Debug)]
struct Zst;
static ZST_LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// the result of comparing two of them
static ZST_EQ: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
impl Zst {
    fn new() -> Self {
        ZST_LIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Zst
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        Zst::new()
    }
}
impl PartialEq for Zst {
    fn eq(&self, _: &Zst) -> bool {
        ZST_EQ.load(std::sync::atomic::Ordering::Relaxed)
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST_LIVE.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
    }
}
fn zero_sized<P: Store<Zst>>(ctx: &mut Ctx, rng: &mut Rng) {
    use std::sync::atomic::Ordering::Relaxed;
    ZST_LIVE.store(0, Relaxed);
    let top = *rng.pick(&[1, 4, 13, 60, ctx.size(500, 300, 14)]);
    let mut vec = P::build(rng, top);
    let mut n = 0;
    let mut h = 0;
    for _ in 0..rng.range(1, ctx.size(40, 20, 8)) {
        let w = || format!("{} of {n} values without size", P::NAME);
        match rng.below(9) {
            0 | 1 if n < top => {
                check!(vec.push(Zst::new()) == n, "{}: push", w());
                n += 1;
            }
            2 | 3 => {
                let k = rng.below(top - n + 1);
                check!(vec.extend_n_items((0..k).map(|_| Zst::new()), k) == n, "{}: extend", w());
                n += k;
            }
            4 if n > 0 => {
                let i = rng.below(n);
                vec[i].set(Zst::new());
                drop(vec[i].replace(Zst::new()));
                vec[i].update(|x| *x = Zst::new());
                check!(vec.swap(i, rng.below(n)), "{}: swap", w());
            }
            5 => vec.slice(rng.below(n + 1)..).fill(Zst::new()),
            6 => {
                let a = rng.below(n + 1);
                vec.slice(a..).fill_with(|_| Zst::new());
                let (l, r) = vec.split_at(a);
                check!(l.len() == a && r.len() == n - a && l.iter().count() == a, "{}: split_at", w());
            }
            7 if rng.chance(1, 3) => {
                vec.clear();
                n = 0;
            }
            7 if rng.chance(1, 3) => {
                let p = vec.into_inner();
                check!(p.len() == n, "{n} values without size: into_inner");
                vec = ConcurrentVec::from(p);
            }
            _ => {}
        }
        let eq = rng.bool();
        ZST_EQ.store(eq, Relaxed);
        let w = || format!("{} of {n} values without size, == gives {eq}", P::NAME);
        check!(ZST_LIVE.load(Relaxed) == n as i64, "{}: {} are alive", w(), ZST_LIVE.load(Relaxed));
        check!(vec.len() == n && vec.iter().count() == n && vec.iter_cloned().count() == n && vec.clone_to_vec().len() == n, "{}: length", w());
        check!(vec.is_empty() == (n == 0) && vec.contains(&Zst::new()) == (n > 0 && eq) && vec.index_of(&Zst::new()) == (n > 0 && eq).then_some(0), "{}: search", w());
        check!(vec.fold(0, |k, _| k + 1) == n && vec.map(|_| ()).count() == n && vec.filter(|_| true).count() == n && vec.reduce(|_, _| Zst::new()).is_some() == (n > 0), "{}: traversals", w());
        let k = rng.range(1, n + 2);
        check!(vec.chunks(k).len() == n.div_ceil(k) && vec.chunks(k).map(|c| c.len()).sum::<usize>() == n, "{}: chunks", w());
        let i = rng.below(n + 2);
        check!(vec.get(i).is_some() == (i < n) && vec.get_cloned(i).is_some() == (i < n) && vec.get_raw(i).is_some() == (i < n), "{}: get({i})", w());
        check!(format!("{vec:?}") == format!("{:?}", vec.clone_to_vec()), "{}: Debug", w());
        if n > 0 {
            check!((vec[0] == Zst::new()) == eq && (vec[0] == vec[n - 1]) == eq, "{}: ==", w());
            let s = vec.slice(rng.below(n)..);
            check!(s.contains(&Zst::new()) == eq && s.index_of(&Zst::new()) == eq.then_some(0), "{}: search in a slice", w());
        }
        ctx.count("queries_of_zero_sized", 12);
        h = hash2(h, n as u64);
    }
    ctx.sig(h);
    match rng.below(3) {
        0 => check!(vec.to_vec().len() == n, "to_vec of {n} values without size"),
        1 => check!(vec.into_iter().take(n / 2).count() == n / 2, "into_iter of {n} values without size"),
        _ => drop(vec),
    }
    check!(ZST_LIVE.load(Relaxed) == 0, "{}: {} of {n} values without size are alive after everything was dropped", P::NAME, ZST_LIVE.load(Relaxed));
}
fn zero_sized_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => zero_sized::<Dbl<Zst>>(ctx, rng),
        1 => zero_sized::<Lin<Zst>>(ctx, rng),
        _ => zero_sized::<Fix<Zst>>(ctx, rng),
    }
}

fn main() {
    run(
        "C12",
        &[
            Scenario::new("quiescent", 5, quiescent_any).miri().seq(),
            Scenario::new("settled", 2, settled_any).miri(),
            Scenario::new("zero_sized", 1, zero_sized_any).miri().seq(),
            Scenario::new("gaps", 1, gaps_any).miri().seq(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C12")).seq(),
        ],
    );
}
