use mon::growth::*;
use mon::seq::*;
use mon::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// a part against its window of the ordinary vector, element by element
fn part<T: Pay, P: Store<T>>(s: &ConcurrentSlice<'_, T, P>, m: &[u64], rng: &mut Rng, w: &dyn Fn() -> String) {
    check!(s.len() == m.len(), "{}: the part has length {} instead of {}", w(), s.len(), m.len());
    let v = s.v_iter_vals();
    check!(v == m, "{}: the part is {:?} instead of {:?}", w(), seq::diff(&v, m), seq::diff(m, &v));
    check!(s.get(m.len()).is_none(), "{}: the part of length {} has an element beyond its end", w(), m.len());
    if rng.chance(1, 6) {
        queries(s, m, rng, w);
    }
}

fn partition<T: Pay, P: Store<T>, V: View<T, P>>(v: &V, m: &[u64], rng: &mut Rng, depth: usize, w: &dyn Fn() -> String) -> u64 {
    let n = m.len();
    let mut done = 0;
    let w = || format!("{} ({} of {n})", w(), v.what());
    // split_at
    for _ in 0..3 {
        let mid = match rng.below(8) {
            0 => n,
            1 => 0,
            2 => n + 1,
            3 => n + 1 + rng.below(40),
            4 => rng.beyond(n + 1),
            _ => rng.below(n + 1),
        };
        let w = || format!("{} split_at({mid})", w());
        if mid > n {
            check!(panics(|| { let (a, b) = v.v_split_at(mid); (a.len(), b.len()) }).is_none(), "{}: does not panic", w());
        } else {
            let (a, b) = v.v_split_at(mid);
            part(&a, &m[..mid], rng, &|| w() + " left");
            part(&b, &m[mid..], rng, &|| w() + " right");
            if depth > 0 && rng.chance(1, 3) {
                done += partition(&a, &m[..mid], rng, depth - 1, &|| w() + " left");
                done += partition(&b, &m[mid..], rng, depth - 1, &|| w() + " right");
            }
        }
        done += 1;
    }
    // first and last
    match v.v_split_first() {
        None => check!(n == 0, "{}: split_first is None", w()),
        Some((e, rest)) => {
            check!(n > 0, "{}: split_first is not None", w());
            check!(e.map(|x| x.val()) == m[0] && std::ptr::eq(e, v.v_index(0)), "{}: split_first does not give the first element", w());
            part(&rest, &m[1..], rng, &|| w() + " rest of split_first");
            if depth > 0 && rng.chance(1, 4) {
                done += partition(&rest, &m[1..], rng, depth - 1, &|| w() + " rest of split_first");
            }
        }
    }
    match v.v_split_last() {
        None => check!(n == 0, "{}: split_last is None", w()),
        Some((e, rest)) => {
            check!(n > 0, "{}: split_last is not None", w());
            check!(e.map(|x| x.val()) == m[n - 1] && std::ptr::eq(e, v.v_index(n - 1)), "{}: split_last does not give the last element", w());
            part(&rest, &m[..n - 1], rng, &|| w() + " rest of split_last");
        }
    }
    done += 2;
    // chunks
    for _ in 0..3 {
        let k = match rng.below(8) {
            0 => n.max(1),
            1 => n + 1 + rng.below(9),
            2 => 1,
            3 => (n / 2).max(1),
            4 => rng.beyond(n).max(1),
            _ => rng.range(1, 12),
        };
        let w = || format!("{} chunks({k})", w());
        let (c, sizes) = v.v_chunks(k);
        let e: Vec<&[u64]> = m.chunks(k).collect();
        check!(c.len() == e.len(), "{}: {} chunks instead of {}", w(), c.len(), e.len());
        for (i, (c, e)) in c.iter().zip(&e).enumerate() {
            part(c, e, rng, &|| format!("{} number {i}", w()));
        }
        let expect: Vec<usize> = (0..=e.len()).rev().collect();
        check!(sizes == expect, "{}: the reported remaining sizes are {:?}..", w(), &sizes[..sizes.len().min(4)]);
        // elements are those of the vec
        let mut pos = 0;
        for c in &c {
            if let Some(x) = c.get(0) {
                check!(std::ptr::eq(x, v.v_index(pos)), "{}: a chunk does not begin with the element {pos}", w());
            }
            pos += c.len();
        }
        let skip = rng.below(e.len() + 2);
        match (v.v_chunks_nth(k, skip), e.get(skip)) {
            (Some(c), Some(e)) => part(&c, e, rng, &|| format!("{} nth({skip})", w())),
            (None, None) => {}
            (a, b) => violation(format!("{}: nth({skip}) is some: {}, expected {}", w(), a.is_some(), b.is_some())),
        }
        if depth > 0 && !c.is_empty() && rng.chance(1, 4) {
            let i = rng.below(c.len());
            done += partition(&c[i], e[i], rng, depth - 1, &|| format!("{} number {i}", w()));
        }
        done += 1;
    }
    check!(panics(|| v.v_chunks(0).0.len()).is_none(), "{}: chunks(0) does not panic", w());
    done
}

fn quiescent<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let top = *rng.pick(&[0, 1, 2, 3, 4, 5, 11, 12, 13, 40, ctx.size(200, 100, 9)]);
    let top = match rng.chance(1, 4) {
        true => ctx.rare(rng, top, 5000),
        false => top,
    };
    let mut s = Sut::<T, P>::new(rng, top);
    while s.model.len() < top {
        s.step(rng, &GROW, (top - s.model.len()).min(40));
    }
    let mut h = hash2(top as u64, hash_str(P::NAME));
    for _ in 0..ctx.size(3, 2, 1) {
        let w = || format!("{} {}", P::NAME, T::NAME);
        let n = partition(&s.vec, &s.model, rng, ctx.size(2, 2, 1), &w);
        ctx.count("partitions", n);
        let (a, b) = s.window(rng);
        let sl = s.vec.slice(a..b);
        let n = partition(&sl, &s.model[a..b], rng, 1, &|| format!("{} slice {a}..{b}", w()));
        ctx.count("partitions", n);
        h = hash2(h, hash2(a as u64, b as u64));
    }
    ctx.sig(hash2(h, rng.next()));
    ctx.sample(|| format!("{} {}: {top} elements", P::NAME, T::NAME));
    drop(s);
    check!(tok_live() == 0 || T::NAME != "token", "{} values are alive after everything was dropped", tok_live());
}
fn quiescent_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => plain_store!(rng, quiescent, u64, (ctx, rng)),
        1 => plain_store!(rng, quiescent, String, (ctx, rng)),
        2 => any_store!(rng, quiescent, Aligned, (ctx, rng)),
        _ => plain_store!(rng, quiescent, Tok, (ctx, rng)),
    }
}

/// position i holds i; while others grow the vec, the parts cover a prefix which was complete at the call
fn growing<P: Store<Wide>>(ctx: &mut Ctx, rng: &mut Rng) {
    let growers = rng.range(1, ctx.size(4, 3, 2));
    let splitters = rng.range(1, ctx.size(3, 2, 1));
    let each = rng.range(5, ctx.size(150, 80, 10));
    let vec = P::build(rng, growers * each * 3);
    set_chaos(*rng.pick(&[0, 50, 150]));
    let running = AtomicUsize::new(growers);
    let mut jobs: Vec<Job<(u64, u64)>> = vec![];
    for g in 0..growers {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(g as u64);
        jobs.push(job!(move |_| {
            for _ in 0..each {
                op("grow", || match rng.below(2) {
                    0 => { vec.push_for_idx(|i| { user(chaos_point); Wide::make(i as u64) }); }
                    _ => {
                        let n = rng.below(4);
                        vec.extend_for_idx(|i| (i..i + n).map(|k| { user(chaos_point); Wide::make(k as u64) }).collect::<Vec<_>>(), n);
                    }
                });
            }
            running.fetch_sub(1, Relaxed);
            (0u64, 0u64)
        }));
    }
    for o in 0..splitters {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(100 + o as u64);
        jobs.push(job!(move |_| {
            let (mut n, mut grew) = (0u64, 0u64);
            let covers = |what: &str, s: &ConcurrentSlice<Wide, P>, begin: usize| {
                let mut k = begin;
                for e in s.iter() {
                    let v = e.map(|x| x.val());
                    check!(v == k as u64, "{}: {what}: the part has {v} where position {k} should be", P::NAME);
                    k += 1;
                }
                check!(k == begin + s.len(), "{}: {what}: a part of length {} yields {} elements", P::NAME, s.len(), k - begin);
                k
            };
            while running.load(Relaxed) > 0 && (!MIRI || n < 12) {
                n += 1;
                let lo = vec.len();
                let (mut what, mut hi) = ("", 0);
                let end = op("split", || match rng.below(5) {
                    0 => {
                        what = "split_at";
                        let mid = rng.below(lo + 1);
                        let (a, b) = vec.split_at(mid);
                        hi = vec.len();
                        check!(a.len() == mid, "{}: split_at({mid}): the left part has length {}", P::NAME, a.len());
                        let m = covers("split_at left", &a, 0);
                        covers("split_at right", &b, m)
                    }
                    1 => {
                        what = "split_first";
                        let r = vec.split_first();
                        hi = vec.len();
                        match r {
                            Some((e, r)) => {
                                check!(e.map(|x| x.val()) == 0, "{}: split_first is not the first element", P::NAME);
                                covers("split_first", &r, 1)
                            }
                            None => 0,
                        }
                    }
                    2 => {
                        what = "split_last";
                        let r = vec.split_last();
                        hi = vec.len();
                        match r {
                            Some((e, r)) => {
                                let k = covers("split_last", &r, 0);
                                let v = e.map(|x| x.val());
                                check!(v == k as u64, "{}: split_last: element {v} follows the {k} others", P::NAME);
                                k + 1
                            }
                            None => 0,
                        }
                    }
                    _ => {
                        what = "chunks";
                        let k = rng.range(1, 9);
                        let it = vec.chunks(k);
                        hi = vec.len();
                        let num = it.len();
                        let (mut end, mut cnt, mut last) = (0, 0, k);
                        for c in it {
                            check!(last == k && !c.is_empty() && c.len() <= k, "{}: chunks({k}): a chunk of length {last} is followed by one of length {}", P::NAME, c.len());
                            last = c.len();
                            end = covers("chunks", &c, end);
                            cnt += 1;
                        }
                        check!(cnt == num, "{}: chunks({k}) reported {num} chunks and yields {cnt}", P::NAME);
                        end
                    }
                });
                check!(lo <= end && end <= hi, "{}: {what} covers {end} elements, while the length was {lo} before and {hi} after the call", P::NAME);
                let hi = vec.len();
                grew += (hi > lo) as u64;
            }
            (n, grew)
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let (n, g) = r.iter().fold((0, 0), |(a, b), x| (a + x.0, b + x.1));
    ctx.count("concurrent_partitions", n);
    ctx.count("partitions_during_growth", g);
    ctx.sig(hash2(hash2(n, g), hash2(vec.len() as u64, hash_str(P::NAME))));
    ctx.sample(|| format!("{} {growers} growers: {n} partitions, {g} of them while the length changed, final length {}", P::NAME, vec.len()));
}
fn growing_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, growing, Wide, (ctx, rng))
}

/// disjoint parts are updated by their own threads while the vec grows
fn workers<P: Store<Wide>>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(1, ctx.size(200, 80, 9));
    let grow = rng.below(ctx.size(100, 40, 4));
    let vec = P::build(rng, n + grow);
    let mut m = prefill(&vec, n);
    let k = rng.range(n.div_ceil(6), n);
    set_chaos(*rng.pick(&[0, 60]));
    let sl = vec.as_slice();
    let on_vec = rng.bool();
    let parts: Vec<_> = if on_vec { vec.chunks(k).collect() } else { sl.chunks(k).collect() };
    let np = parts.len();
    let mut jobs: Vec<Job<()>> = parts
        .iter()
        .map(|s| job!(move |_| {
            for e in s.iter() {
                op("update", || e.update(|x| { let v = x.val(); x.put(v ^ 0xffff) }));
            }
        }))
        .collect();
    let v = &vec;
    jobs.push(job!(move |_| {
        for i in 0..grow {
            op("push", || v.push(Wide::make(i as u64)));
        }
    }));
    par(rng.next(), jobs);
    set_chaos(0);
    m.iter_mut().for_each(|x| *x ^= 0xffff);
    let c = contents(&vec);
    check!(c.len() == n + grow && c[..n] == m, "{}: after updating each of {np} chunks of {k} the values are {:?} instead of {:?}", P::NAME, seq::diff(&c[..n.min(c.len())], &m), seq::diff(&m, &c[..n.min(c.len())]));
    ctx.count("chunk_workers", np as u64);
    ctx.sig(hash2(n as u64, hash2(k as u64, grow as u64)));
}
fn workers_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, workers, Wide, (ctx, rng))
}

/// parts which are made at some length, and used at another
fn before_growth<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(1, ctx.size(60, 30, 8));
    let grow = rng.range(1, ctx.size(60, 30, 8));
    let vec = P::build(rng, n + grow);
    let m = prefill(&vec, n);
    let mid = rng.below(n + 1);
    let k = rng.range(1, n + 2);
    let skip = rng.below(3);
    let (a, b) = vec.split_at(mid);
    let first = vec.split_first();
    let last = vec.split_last();
    let mut chunks = vec.chunks(k);
    let num = n.div_ceil(k);
    let what = format!("{} {}: parts of {n} elements after {grow} more were added", P::NAME, T::NAME);
    // some of them are yielded before
    let mut early = vec![];
    for _ in 0..skip.min(num) {
        early.extend(chunks.next());
    }
    let kinds: Vec<u64> = (0..grow as u64).map(|i| 900 + i).collect();
    let mut i = 0;
    while i < grow {
        let s = rng.range(1, grow - i);
        vec.extend(kinds[i..i + s].iter().map(|v| T::make(*v)).collect::<Vec<_>>());
        i += s;
    }
    check!(vec.len() == n + grow, "{what}: the length is {}", vec.len());
    let vals = |s: &ConcurrentSlice<T, P>| s.iter().map(|e| e.map(|x| x.val())).collect::<Vec<u64>>();
    check!(vals(&a) == m[..mid] && vals(&b) == m[mid..], "{what}: split_at({mid}) has {} and {} elements", a.len(), b.len());
    match (first, last) {
        (Some((f, r)), Some((l, i))) => {
            check!(f.map(|x| x.val()) == m[0] && vals(&r) == m[1..], "{what}: split_first has {} others", r.len());
            check!(l.map(|x| x.val()) == m[n - 1] && vals(&i) == m[..n - 1], "{what}: split_last has {} others", i.len());
        }
        _ => violation(format!("{what}: split_first or split_last gave None")),
    }
    check!(chunks.len() == num - early.len(), "{what}: chunks({k}) has {} left after {} of {num}", chunks.len(), early.len());
    early.extend(chunks);
    check!(early.len() == num, "{what}: chunks({k}) yields {} instead of {num}", early.len());
    for (s, e) in early.iter().zip(m.chunks(k)) {
        check!(vals(s) == e, "{what}: a chunk of {k} has {} elements instead of {}", s.len(), e.len());
    }
    ctx.count("parts_before_growth", 4);
    ctx.sig(hash2(hash2(n as u64, k as u64), hash2(grow as u64, mid as u64)));
    ctx.sample(|| what);
}
fn before_growth_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(2) {
        0 => any_store!(rng, before_growth, u64, (ctx, rng)),
        _ => any_store!(rng, before_growth, String, (ctx, rng)),
    }
}

fn main() {
    run(
        "C11",
        &[
            Scenario::new("quiescent", 4, quiescent_any).miri().seq(),
            Scenario::new("before_growth", 1, before_growth_any).miri().seq(),
            Scenario::new("growing", 4, growing_any).miri(),
            Scenario::new("workers", 1, workers_any).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C11")).seq(),
        ],
    );
}
