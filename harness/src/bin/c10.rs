use mon::growth::*;
use mon::seq::*;
use mon::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

type Elem<T> = ConcurrentElement<T>;

/// a slice against the positions `begin..begin + m.len()` of the vec which it should denote
fn slice_is<T: Pay, P: Store<T>>(
    vec: &ConcurrentVec<T, P>,
    s: &ConcurrentSlice<'_, T, P>,
    begin: usize,
    m: &[u64],
    rng: &mut Rng,
    w: &str,
) {
    let n = m.len();
    check!(s.len() == n, "{w}: the slice has length {} instead of {n}", s.len());
    check!(s.is_empty() == (n == 0), "{w}: is_empty of a slice of length {n} is wrong");
    for _ in 0..4 {
        if n == 0 {
            break;
        }
        let i = if rng.bool() { n - 1 } else { rng.below(n) };
        let e: *const Elem<T> = &vec[begin + i];
        let a = s.get(i).map(|x| x as *const Elem<T>);
        check!(a == Some(e), "{w}: get({i}) of the slice is not the element {} of the vec", begin + i);
        check!(&s[i] as *const Elem<T> == e, "{w}: [{i}] of the slice is not the element {} of the vec", begin + i);
        check!(s.iter().nth(i).map(|x| x as *const Elem<T>) == Some(e), "{w}: iteration of the slice does not yield the element {} of the vec at {i}", begin + i);
        check!(s[i].map(|x| x.val()) == m[i], "{w}: [{i}] of the slice is {:x} instead of {:x}", s[i].map(|x| x.val()), m[i]);
        check!(s.get_cloned(i).map(|x| x.val()) == Some(m[i]), "{w}: get_cloned({i}) of the slice is wrong");
        check!(s.get_raw(i) == vec.get_raw(begin + i) && s.get_raw(i).is_some(), "{w}: get_raw({i}) of the slice is not that of the element {}", begin + i);
    }
    for i in [n, n + 1, n + rng.below(50), rng.beyond(n)] {
        let none = s.get(i).is_none() && s.get_cloned(i).is_none() && s.get_raw(i).is_none() && unsafe { s.get_ref(i).is_none() } && s.get_raw_mut(i).is_none();
        check!(none, "{w}: position {i} of a slice of length {n} is not absent (the vec has {} elements)", vec.len());
        if i == n || rng.below(8) == 0 {
            check!(panics(|| _ = &s[i]).is_none(), "{w}: indexing a slice of length {n} at {i} does not panic");
        }
    }
    check!(s.iter().count() == n, "{w}: iteration of a slice of length {n} yields {}", s.iter().count());
}

fn nested<T: Pay, P: Store<T>>(
    vec: &ConcurrentVec<T, P>,
    s: &ConcurrentSlice<'_, T, P>,
    begin: usize,
    m: &[u64],
    rng: &mut Rng,
    w: &str,
    depth: usize,
) -> u64 {
    slice_is(vec, s, begin, m, rng, w);
    let mut done = 1;
    if rng.bool() {
        done += queries(s, m, rng, &|| w.to_string());
    }
    if depth > 0 {
        for _ in 0..2 {
            let r = Ran::random(rng, m.len());
            let w = format!("{w} -> {r:?}");
            let t = s.v_slice(r);
            match r.limits(m.len()) {
                Some((a, b)) => done += nested(vec, &t, begin + a, &m[a..b], rng, &w, depth - 1),
                None => check!(t.is_empty() && t.iter().count() == 0 && t.get(0).is_none(), "{w}: a reversed range gives a slice of length {}", t.len()),
            }
        }
    }
    done
}

/// random slices of slices over random histories; they stay what they are while the vec grows and changes
fn compose<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let top = *rng.pick(&[0, 1, 4, 5, 13, 40, ctx.size(300, 200, 13)]);
    let top = match rng.chance(1, 4) {
        true => ctx.rare(rng, top, 5000),
        false => top,
    };
    let extra = 40;
    let mut s = Sut::<T, P>::new(rng, top + extra);
    let mut h = hash_str(P::NAME);
    while s.model.len() < top {
        let ops: &[usize] = if rng.bool() { &GROW } else { &[0, 5, 8] };
        s.step(rng, ops, (top - s.model.len()).min(40));
    }
    s.verify();
    let vec = &s.vec;
    let mut m = s.model.clone();
    let mut done = 0;
    for k in 0..ctx.size(6, 4, 2) {
        let n = m.len();
        let r = Ran::random(rng, n);
        let sl = vec.v_slice(r);
        let w = format!("{} {} of {n} elements, slice {r:?}", P::NAME, T::NAME);
        h = hash2(h, hash_str(&format!("{r:?}")));
        let Some((a, b)) = r.limits(n) else {
            check!(sl.is_empty() && sl.iter().next().is_none() && sl.get(0).is_none(), "{w}: a reversed range gives a slice of length {}", sl.len());
            continue;
        };
        done += nested(vec, &sl, a, &m[a..b], rng, &w, ctx.size(3, 3, 2));
        let whole = vec.as_slice();
        slice_is(vec, &whole, 0, &m, rng, &format!("{w} (as_slice)"));
        // nested slice which outlives the changes below
        let r2 = Ran::random(rng, b - a);
        let inner = sl.v_slice(r2);
        // growth
        for j in 0..rng.below(5) {
            if m.len() < n + 6 && m.len() < top + extra {
                let v = (k * 100 + j) as u64 + (1 << 60);
                vec.push(T::make(v));
                m.push(v);
            }
        }
        // writes through the vec are visible in the slice and the other way around
        for _ in 0..4 {
            if m.is_empty() {
                break;
            }
            let i = rng.below(m.len());
            let v = rng.next() >> 10;
            match rng.below(4) {
                0 => { vec[i].set(T::make(v)); m[i] = v }
                1 if b > a => {
                    let j = rng.below(b - a);
                    sl[j].update(|x| x.put(v));
                    m[a + j] = v;
                }
                2 if b > a => {
                    let j = rng.below(b - a);
                    let old = sl.get(j).map(|e| e.replace(T::make(v)).val());
                    check!(old == Some(m[a + j]), "{w}: replace through the slice gave {old:x?} instead of {:x}", m[a + j]);
                    m[a + j] = v;
                }
                _ => { vec.swap(0, i); m.swap(0, i) }
            }
        }
        slice_is(vec, &sl, a, &m[a..b], rng, &format!("{w} after growth to {}", m.len()));
        if let Some((c, d)) = r2.limits(b - a) {
            slice_is(vec, &inner, a + c, &m[a + c..a + d], rng, &format!("{w} -> {r2:?} after growth to {}", m.len()));
        }
        slice_is(vec, &whole, 0, &m[..n], rng, &format!("{w} (as_slice) after growth to {}", m.len()));
        // copies denote the same
        #[allow(clippy::clone_on_copy)]
        let c = sl.v_slice(Ran::Full);
        slice_is(vec, &c, a, &m[a..b], rng, &format!("{w} full slice of it"));
    }
    ctx.count("slices_checked", done);
    ctx.sig(h);
    ctx.sample(|| format!("{} {}: {} elements, {done} slices checked, depth up to 4", P::NAME, T::NAME, m.len()));
    drop(s);
    check!(tok_live() == 0 || T::NAME != "token", "{} values are alive after everything was dropped", tok_live());
}
fn compose_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => plain_store!(rng, compose, u64, (ctx, rng)),
        1 => plain_store!(rng, compose, String, (ctx, rng)),
        2 => plain_store!(rng, compose, Tok, (ctx, rng)),
        _ => any_store!(rng, compose, Wide, (ctx, rng)),
    }
}

/// slices taken while others grow the vec: the length is the clamp to a length of that time and stays;
/// position i of the vec always holds mix(i), so that every offset is verifiable
fn growing<P: Store<Wide>>(ctx: &mut Ctx, rng: &mut Rng) {
    let growers = rng.range(1, ctx.size(4, 3, 2));
    let slicers = rng.range(1, ctx.size(3, 2, 1));
    let each = rng.range(5, ctx.size(150, 80, 10));
    let pre = rng.below(8);
    let vec = P::build(rng, pre + growers * each * 3);
    for k in 0..pre {
        vec.push_for_idx(|i| { check!(i == k, "push_for_idx({k}) was given {i}"); Wide::make(i as u64) });
    }
    set_chaos(*rng.pick(&[0, 50, 150]));
    let running = AtomicUsize::new(growers);
    let mut jobs: Vec<Job<(u64, u64)>> = vec![];
    for g in 0..growers {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(g as u64);
        jobs.push(job!(move |_| {
            for _ in 0..each {
                op("grow", || match rng.below(2) {
                    0 => { vec.push_for_idx(|i| { user(chaos_point); Wide::make(i as u64) }); }
                    _ => {
                        let n = rng.below(4);
                        vec.extend_for_idx(|i| (i..i + n).map(|k| { user(chaos_point); Wide::make(k as u64) }).collect::<Vec<_>>(), n);
                    }
                });
            }
            running.fetch_sub(1, Relaxed);
            (0u64, 0u64)
        }));
    }
    for o in 0..slicers {
        let (vec, running) = (&vec, &running);
        let mut rng = rng.fork(100 + o as u64);
        jobs.push(job!(move |_| {
            let (mut n, mut grew) = (0u64, 0u64);
            let mut old: Vec<(ConcurrentSlice<Wide, P>, usize, usize)> = vec![];
            while running.load(Relaxed) > 0 && (!MIRI || n < 10) {
                n += 1;
                let lo = vec.len();
                let r = Ran::random(&mut rng, lo);
                let s = op("slice", || vec.v_slice(r));
                let hi = vec.len();
                grew += (hi > lo) as u64;
                let w = format!("{} while growing, length {lo} to {hi}, slice {r:?}", P::NAME);
                let len = s.len();
                // the possible outcomes by the length at the time of the call
                let fits = |l: usize| match r.limits(l) {
                    Some((a, b)) => (a, b - a),
                    None => (0, 0),
                };
                let ok = if hi - lo < 5000 { (lo..=hi).any(|l| fits(l).1 == len) } else { true };
                check!(ok, "{w}: the slice has length {len}");
                let begin = match r {
                    Ran::From(a) | Ran::Half(a, _) | Ran::Incl(a, _) => a,
                    Ran::Pair(std::ops::Bound::Included(a), _) => a,
                    Ran::Pair(std::ops::Bound::Excluded(a), _) => a + 1,
                    _ => 0,
                };
                let verify = |s: &ConcurrentSlice<Wide, P>, begin: usize, len: usize, rng: &mut Rng| {
                    check!(s.len() == len, "{w}: the length of a slice changed from {len} to {}", s.len());
                    op("read slice", || {
                        check!(s.get(len).is_none() && s.get(len + rng.below(30)).is_none(), "{w}: a slice of length {len} has an element beyond its end");
                        if len > 0 {
                            let i = rng.below(len);
                            let e = &s[i];
                            check!(std::ptr::eq(e, &vec[begin + i]), "{w}: [{i}] of the slice is not the element {} of the vec", begin + i);
                            let v = e.map(|x| x.val());
                            check!(v == (begin + i) as u64, "{w}: [{i}] of the slice is {v} instead of {}", begin + i);
                            let a = rng.below(len + 1);
                            let t = s.slice(a..);
                            check!(t.len() == len - a, "{w}: slice({a}..) of a slice of length {len} has length {}", t.len());
                            if len < 40 || rng.below(20) == 0 {
                                let mut k = 0;
                                for x in t.iter() {
                                    let v = x.map(|x| x.val());
                                    check!(v == (begin + a + k) as u64, "{w}: iteration of slice({a}..) of the slice yields {v} at {k}");
                                    k += 1;
                                }
                                check!(k == len - a, "{w}: iteration of slice({a}..) of a slice of length {len} yields {k}");
                            }
                        }
                    })
                };
                verify(&s, begin, len, &mut rng);
                if old.len() < 8 {
                    old.push((s, begin, len));
                } else {
                    let k = rng.below(8);
                    let (s, begin, len) = &old[k];
                    verify(s, *begin, *len, &mut rng);
                    if rng.bool() {
                        old.swap_remove(k);
                    }
                }
            }
            (n, grew)
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let (n, g) = r.iter().fold((0, 0), |(a, b), x| (a + x.0, b + x.1));
    ctx.count("concurrent_slices", n);
    ctx.count("slices_during_growth", g);
    ctx.sig(hash2(hash2(n, g), hash2(vec.len() as u64, hash_str(P::NAME))));
    ctx.sample(|| format!("{} {growers} growers: {n} slices, {g} of them while the length changed, final length {}", P::NAME, vec.len()));
}
fn growing_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, growing, Wide, (ctx, rng))
}

/// writes through overlapping slices by several threads are those of the elements of the vec
fn shared<P: Store<Wide>>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 12);
    let threads = rng.range(2, ctx.size(5, 4, 2));
    let each = ctx.size(300, 120, 12);
    let vec = P::build(rng, n + 4);
    for _ in 0..n {
        vec.push(Wide::make(0));
    }
    set_chaos(*rng.pick(&[0, 60]));
    let jobs: Vec<Job<Vec<u64>>> = (0..threads)
        .map(|t| {
            let vec = &vec;
            let mut rng = rng.fork(t as u64);
            job!(move |_| {
                let mut adds = vec![0u64; n];
                for k in 0..each {
                    let (a, b) = (rng.below(n), rng.below(n) + 1);
                    let (a, b) = (a.min(b - 1), b.max(a + 1));
                    let s = vec.slice(a..b);
                    let i = rng.below(b - a);
                    let d = 1 + (k % 5) as u64;
                    op("update through a slice", || match rng.below(3) {
                        0 => s[i].update(|x| { let v = x.val(); x.put(v + d) }),
                        1 => {
                            let t = s.slice(i..);
                            t[0].update(|x| { let v = x.val(); x.put(v + d) })
                        }
                        _ => vec[a + i].update(|x| { let v = x.val(); x.put(v + d) }),
                    });
                    adds[a + i] += d;
                }
                adds
            })
        })
        .collect();
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let e: Vec<u64> = (0..n).map(|i| r.iter().map(|x| x[i]).sum()).collect();
    let c = contents(&vec);
    check!(c == e, "{}: updates through slices add up to {c:?} instead of {e:?}", P::NAME);
    ctx.count("updates_through_slices", (threads * each) as u64);
    ctx.sig(e.iter().fold(3, |h, v| hash2(h, *v)));
}
fn shared_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, shared, Wide, (ctx, rng))
}

fn main() {
    run(
        "C10",
        &[
            Scenario::new("compose", 4, compose_any).miri().seq(),
            Scenario::new("growing", 4, growing_any).miri(),
            Scenario::new("shared", 1, shared_any).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C10")).seq(),
        ],
    );
}
