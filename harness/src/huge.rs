//! Collections beyond 2^16 elements: the same statements as in the workloads of usual sizes, on all positions
//! where that is cheap and otherwise at random, mostly distant ones.
use crate::growth::*;
use crate::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

fn size(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => 65_534 + rng.below(5),
        1 => 131_070 + rng.below(5),
        2 => 65_536 + rng.below(1000),
        3 => 98_302 + rng.below(5),
        _ => rng.range(60_000, 140_000),
    }
}

fn value(salt: u64, i: usize) -> u64 {
    (salt << 24) ^ i as u64
}

/// positions near the ends, near powers of two, and random
fn place(rng: &mut Rng, n: usize) -> usize {
    match rng.below(8) {
        0 => rng.below(n.min(3)),
        1 => n - 1 - rng.below(n.min(3)),
        2 => (((1usize << rng.range(8, 17)) + rng.below(3)).saturating_sub(1)).min(n - 1),
        _ => rng.below(n),
    }
}

/// grows the vec from `from` to `n` elements by few calls of all kinds
fn grow<P: Store<u64>>(vec: &ConcurrentVec<u64, P>, from: usize, n: usize, salt: u64, rng: &mut Rng) {
    let mut at = from;
    while at < n {
        let left = n - at;
        let k = match rng.below(4) {
            0 => left,
            1 => left.min(1 + rng.below(200)),
            2 => left.min(65_535 + rng.below(3)),
            _ => 1 + rng.below(left),
        };
        let vals = (at..at + k).map(|i| value(salt, i));
        let kind = rng.below(5);
        let told = std::cell::Cell::new(at);
        let i = match kind {
            0 if k > 500 => vec.extend(vals.collect::<Vec<_>>()),
            0 => {
                let mut first = None;
                for v in vals {
                    let i = vec.push(v);
                    first.get_or_insert(i);
                }
                first.unwrap_or(at)
            }
            1 => vec.extend(ExactIter { it: vals, n: k }),
            2 => vec.extend_n_items(vals.chain(0..3), k),
            3 => vec.extend_for_idx(
                |i| {
                    told.set(i);
                    ExactIter { it: vals, n: k }
                },
                k,
            ),
            _ => vec.extend_n_items(vals, k),
        };
        check!(i == at && told.get() == at, "{}: growth call {kind} of {k} items returned {i} (told {}), expected {at}", P::NAME, told.get());
        at += k;
    }
}

fn is(w: &str, what: &str, got: impl Iterator<Item = u64>, m: &[u64]) {
    let mut n = 0;
    for (i, x) in got.enumerate() {
        if m.get(i) != Some(&x) {
            violation(format!("{w}: {what} gives {x:x} at position {i} of {}, expected {:x?}", m.len(), m.get(i)));
        }
        n += 1;
    }
    check!(n == m.len(), "{w}: {what} gives {n} values instead of {}", m.len());
}

fn model(salt: u64, n: usize) -> Vec<u64> {
    (0..n).map(|i| value(salt, i)).collect()
}

fn window_is<P: Store<u64>>(w: &str, vec: &ConcurrentVec<u64, P>, s: &ConcurrentSlice<'_, u64, P>, a: usize, b: usize, rng: &mut Rng) {
    check!(s.len() == b - a && s.is_empty() == (a == b), "{w}: the window {a}..{b} has length {}", s.len());
    if a < b {
        for _ in 0..3 {
            let i = place(rng, b - a);
            check!(std::ptr::eq(&s[i], &vec[a + i]), "{w}: element {i} of the window {a}..{b} is not the vec's element {}", a + i);
            check!(s.get(i).is_some_and(|e| std::ptr::eq(e, &vec[a + i])), "{w}: get({i}) of the window {a}..{b} is not the vec's element {}", a + i);
        }
    }
    let out = b - a + rng.below(3);
    check!(s.get(out).is_none() && s.get_cloned(out).is_none(), "{w}: get({out}) is present in the window {a}..{b}");
}

fn with<P: Store<u64>>(ctx: &mut Ctx, rng: &mut Rng, part: &str) {
    let n = size(rng);
    let salt = rng.next() >> 40;
    let extra = 70_000;
    let mut vec = match part {
        "C15" | "C24" => match P::tight(rng, n) {
            Some(v) => v,
            None => return,
        },
        "C08" => P::build(rng, n + extra),
        "C14" => P::build(rng, n),
        _ => P::build(rng, n),
    };
    let w = format!("{} of {n} values", P::NAME);
    let limit = vec.maximum_capacity();
    match part {
        // several threads, huge and small batches
        "C01" | "C20" => {
            let threads = rng.range(2, 5);
            let each = n / threads;
            let vec = &vec;
            let jobs: Vec<Job<Vec<Grown>>> = (0..threads)
                .map(|t| {
                    let mut rng = rng.fork(t as u64);
                    job!(move |_| {
                        let (mut left, mut k, mut ops) = (each, 0u64, vec![]);
                        while left > 0 && ops.len() < 60 {
                            let b = match rng.below(3) {
                                0 => left,
                                1 => left.min(1 + rng.below(50)),
                                _ => 1 + rng.below(left),
                            };
                            let g = grow_once(vec, rng.below(5), b, false, t, || {
                                k += 1;
                                uniq(t, k)
                            });
                            left -= g.vals.len();
                            ops.push(g);
                        }
                        ops
                    })
                })
                .collect();
            let ops: Vec<Grown> = par(rng.next(), jobs).into_iter().flatten().collect();
            check_growth(&w, &contents(vec), &[], &ops);
        }
        "C02" | "C03" | "C04" | "C21" => {
            // looked at by another thread meanwhile
            let told = AtomicUsize::new(0);
            let done = AtomicUsize::new(0);
            let (vec, w, told, done) = (&vec, &w, &told, &done);
            let (mut r1, mut r2) = (rng.fork(1), rng.fork(2));
            let jobs: Vec<Job<u64>> = vec![
                job!(move |_| {
                    let mut at = 0;
                    while at < n {
                        let to = (at + 1 + r1.below(n / 3)).min(n);
                        grow(vec, at, to, salt, &mut r1);
                        at = to;
                        told.store(at, Release);
                    }
                    done.store(1, Release);
                    0u64
                }),
                job!(move |_| {
                    let (mut seen, mut looks) = (0, 0u64);
                    while done.load(Acquire) == 0 {
                        let t = told.load(Acquire);
                        let len = vec.len();
                        check!(len >= t && len >= seen && len <= n, "{w}: length {len} after {seen}, {t} elements are there");
                        seen = len;
                        looks += 1;
                        if len == 0 {
                            continue;
                        }
                        for _ in 0..5 {
                            let i = place(&mut r2, len);
                            check!(vec[i].cloned() == value(salt, i), "{w}: wrong value at {i}");
                            check!(vec.get_cloned(i) == Some(value(salt, i)), "{w}: wrong value by get_cloned({i})");
                        }
                        if r2.chance(1, 4) {
                            let mut k = 0;
                            match r2.below(4) {
                                0 => vec.iter().for_each(|e| {
                                    check!(e.cloned() == value(salt, k), "{w}: iteration gives {:x} at {k}", e.cloned());
                                    k += 1;
                                }),
                                1 => vec.iter_cloned().for_each(|x| {
                                    check!(x == value(salt, k), "{w}: iter_cloned gives {x:x} at {k}");
                                    k += 1;
                                }),
                                2 => {
                                    k = vec.fold(0, |k, x| {
                                        check!(*x == value(salt, k), "{w}: fold gives {x:x} at {k}");
                                        k + 1
                                    })
                                }
                                _ => vec.clone_to_vec().into_iter().for_each(|x| {
                                    check!(x == value(salt, k), "{w}: clone_to_vec gives {x:x} at {k}");
                                    k += 1;
                                }),
                            }
                            check!(k >= len, "{w}: a traversal ends after {k} elements, {len} were there");
                        }
                    }
                    looks
                }),
            ];
            par(rng.next(), jobs);
            check!(vec.len() == n && !vec.is_empty() && vec.get(n).is_none() && vec.get(n - 1).is_some(), "{w}: length {}", vec.len());
            is(w, "iteration", vec.iter().map(|e| e.cloned()), &model(salt, n));
        }
        "C07" => {
            drop(vec);
            drops(rng, n);
        }
        "C08" => {
            grow(&vec, 0, n, salt, rng);
            let a: Vec<*const u64> = (0..n).map(|i| vec.get_raw(i).unwrap_or_else(|| violation(format!("{w}: get_raw({i}) is None")))).collect();
            for (i, p) in a.iter().enumerate() {
                check!(unsafe { **p } == value(salt, i), "{w}: get_raw({i}) refers to another value");
                check!(unsafe { vec.get_ref(i) }.is_some_and(|x| std::ptr::eq(x, *p)), "{w}: get_ref({i}) and get_raw differ");
            }
            let m = n + rng.range(1, extra);
            grow(&vec, n, m, salt, rng);
            for (i, p) in a.iter().enumerate() {
                check!(vec.get_raw(i) == Some(*p), "{w}: element {i} moved when the vec grew to {m}");
            }
            let (x, y) = (place(rng, m), place(rng, m));
            let (x, y) = (x.min(y), x.max(y));
            let s = vec.slice(x..y);
            is(&w, "iter_ref of a slice", unsafe { s.iter_ref() }.copied(), &model(salt, m)[x..y]);
            check!(s.get_raw(y - x).is_none() && vec.get_raw(m).is_none(), "{w}: get_raw behind the end");
            is(&w, "iter_ref", unsafe { vec.iter_ref() }.copied(), &model(salt, m));
            for x in unsafe { vec.iter_mut() } {
                *x = !*x;
            }
            for _ in 0..50 {
                let i = place(rng, m);
                unsafe { *vec.get_mut(i).unwrap_or_else(|| violation(format!("{w}: get_mut({i}) is None"))) ^= 0 };
            }
            is(&w, "iteration after iter_mut", vec.iter_cloned(), &model(salt, m).iter().map(|x| !x).collect::<Vec<_>>());
        }
        "C09" => {
            grow(&vec, 0, n, salt, rng);
            let mut m = model(salt, n);
            let (x, y) = (place(rng, n), place(rng, n));
            let (x, y) = (x.min(y), x.max(y) + 1);
            let s = vec.slice(x..y);
            for _ in 0..200 {
                let (i, j) = (place(rng, n), place(rng, n));
                check!(vec.swap(i, j), "{w}: swap({i}, {j}) is refused");
                m.swap(i, j);
                let (i, j) = (place(rng, y - x), place(rng, y - x));
                check!(s.swap(i, j), "{w}: swap({i}, {j}) in {x}..{y} is refused");
                m.swap(x + i, x + j);
                check!(!vec.swap(i, n + rng.below(3)) && !s.swap(y - x + rng.below(2), i), "{w}: swap out of bounds");
            }
            is(&w, "iteration", vec.iter_cloned(), &m);
        }
        "C10" => {
            grow(&vec, 0, n, salt, rng);
            for _ in 0..40 {
                let r = Ran::random(rng, n);
                let Some((a, b)) = r.limits(n) else { continue };
                let s = vec.v_slice(r);
                window_is(&w, &vec, &s, a, b, rng);
                let r = Ran::random(rng, b - a);
                let Some((c, d)) = r.limits(b - a) else { continue };
                window_is(&w, &vec, &s.v_slice(r), a + c, a + d, rng);
            }
        }
        "C11" => {
            grow(&vec, 0, n, salt, rng);
            let (x, y) = match rng.bool() {
                true => (0, n),
                false => {
                    let (x, y) = (place(rng, n), place(rng, n));
                    (x.min(y), x.max(y) + 1)
                }
            };
            let s = vec.slice(x..y);
            for _ in 0..10 {
                let m = place(rng, y - x);
                let (l, r) = match x == 0 && y == n {
                    true => vec.split_at(m),
                    false => s.split_at(m),
                };
                window_is(&w, &vec, &l, x, x + m, rng);
                window_is(&w, &vec, &r, x + m, y, rng);
            }
            let all = x == 0 && y == n;
            if let Some((e, r)) = if all { vec.split_first() } else { s.split_first() } {
                check!(std::ptr::eq(e, &vec[x]), "{w}: split_first of {x}..{y}");
                window_is(&w, &vec, &r, x + 1, y, rng);
            }
            if let Some((e, r)) = if all { vec.split_last() } else { s.split_last() } {
                check!(std::ptr::eq(e, &vec[y - 1]), "{w}: split_last of {x}..{y}");
                window_is(&w, &vec, &r, x, y - 1, rng);
            }
            let k = match rng.below(5) {
                0 | 4 => rng.range(1, 2),
                1 => 65_535 + rng.below(3),
                2 => (y - x + rng.below(3)).saturating_sub(1).max(1),
                _ => 1 + rng.below(y - x),
            };
            let mut it: Box<dyn ExactSizeIterator<Item = ConcurrentSlice<'_, u64, P>> + '_> = match all {
                true => Box::new(vec.chunks(k)),
                false => Box::new(s.chunks(k)),
            };
            let mut at = x;
            let mut left = (y - x).div_ceil(k);
            loop {
                check!(it.len() == left, "{w}: chunks({k}) of {x}..{y} report {} remaining chunks at {at}, expected {left}", it.len());
                let Some(c) = it.next() else { break };
                check!(at < y, "{w}: chunks({k}) of {x}..{y} go on after {at}");
                let to = (at + k).min(y);
                if k > 100 || at % 1000 == 0 {
                    window_is(&w, &vec, &c, at, to, rng);
                } else {
                    check!(c.len() == to - at && std::ptr::eq(&c[0], &vec[at]), "{w}: chunk {at}..{to}");
                }
                at = to;
                left -= 1;
            }
            check!(at == y, "{w}: chunks({k}) of {x}..{y} end at {at}");
        }
        "C12" => {
            grow(&vec, 0, n, salt, rng);
            let m = model(salt, n);
            let (x, y) = (place(rng, n), place(rng, n));
            let (x, y) = (x.min(y), x.max(y) + 1);
            let s = vec.slice(x..y);
            queries(&w, &vec, &m, rng);
            queries(&format!("{w} {x}..{y}"), &s, &m[x..y], rng);
        }
        "C13" => {
            grow(&vec, 0, n, salt, rng);
            let m = model(salt, n);
            match rng.below(4) {
                0 => is(&w, "to_vec", vec.to_vec().into_iter(), &m),
                1 => {
                    let k = rng.below(n);
                    let mut it = vec.into_iter();
                    is(&w, "into_iter", it.by_ref().take(k), &m[..k]);
                    is(&w, "the rest of into_iter", it, &m[k..]);
                }
                2 => {
                    let v: ConcurrentVec<u64, P> = ConcurrentVec::from(vec.into_inner());
                    check!(v.len() == n, "{w}: length {} after into_inner and back", v.len());
                    is(&w, "iteration after into_inner and back", v.iter_cloned(), &m);
                    is(&w, "clone_to_vec", v.clone_to_vec().into_iter(), &m);
                }
                _ => {
                    let v: ConcurrentVec<u64> = match rng.below(3) {
                        0 => m.iter().copied().collect(),
                        1 => m.iter().copied().filter(|_| true).collect(),
                        _ => {
                            let v: ConcurrentVec<u64> = m.iter().copied().collect();
                            v.clone()
                        }
                    };
                    check!(v.len() == n, "{w}: {} values collected", v.len());
                    let i = v.extend(m.clone());
                    check!(i == n && v.len() == 2 * n, "{w}: a collected vec grows at {i}");
                    is(&w, "a collected vec", v.iter_cloned(), &[&m[..], &m[..]].concat());
                }
            }
        }
        "C14" => {
            grow(&vec, 0, n, salt, rng);
            if rng.bool() {
                vec.clear();
                check!(vec.len() == 0 && vec.get(0).is_none() && vec.iter().count() == 0 && vec.maximum_capacity() == limit, "{w}: after clear the length is {}", vec.len());
                check!((0..20).all(|_| vec.get_cloned(place(rng, n)).is_none()), "{w}: values are left after clear");
                grow(&vec, 0, n, salt + 1, rng);
                is(&w, "iteration after clear and growth", vec.iter_cloned(), &model(salt + 1, n));
            } else {
                let m = n + rng.below(extra);
                // a fixed number of fragments can be enlarged without limit; the default has its maximum
                let got = vec.reserve_maximum_capacity(m);
                check!(got >= m && got == vec.maximum_capacity() && got >= limit, "{w}: reserving {m} gives {got}, maximum {} before {limit}", vec.maximum_capacity());
                is(&w, "iteration after reserve", vec.iter_cloned(), &model(salt, n));
                grow(&vec, n, m, salt, rng);
                is(&w, "iteration after reserve and growth", vec.iter_cloned(), &model(salt, m));
            }
        }
        "C15" | "C24" => {
            grow(&vec, 0, limit, salt, rng);
            let cap = vec.capacity();
            check!(cap == limit && vec.maximum_capacity() == limit && vec.len() == limit, "{w}: length {}, capacity {cap} of {}, expected {limit}", vec.len(), vec.maximum_capacity());
            let k = 1 + rng.below(70_000);
            let v = &vec;
            let r = match rng.below(4) {
                0 => panics(|| v.push(1)),
                1 => panics(|| v.extend(vec![1; k])),
                2 => panics(|| v.extend_n_items(0..k as u64, k)),
                _ => panics(|| v.push_for_idx(|i| i as u64)),
            };
            check!(r.is_none(), "{w}: growth beyond the maximum of {limit} returned {r:?}");
            check!(vec.capacity() == cap && vec.maximum_capacity() == limit, "{w}: refused growth changed the capacities");
            is(&w, "iteration of a full vec", vec.iter_cloned(), &model(salt, limit));
        }
        "C19" => {
            grow(&vec, 0, n, salt, rng);
            let mut m = model(salt, n);
            let (x, y) = (place(rng, n), place(rng, n));
            let (x, y) = (x.min(y), x.max(y) + 1);
            let mut asked = 0;
            match rng.below(4) {
                0 => {
                    vec.slice(x..y).fill(7);
                    m[x..y].fill(7);
                }
                1 => {
                    vec.slice(x..y).fill_with(|i| {
                        check!(i == asked, "{w}: fill_with of {x}..{y} asks for {i} after {asked} calls");
                        asked += 1;
                        i as u64
                    });
                    (x..y).for_each(|i| m[i] = (i - x) as u64);
                }
                2 => {
                    vec.fill(9);
                    m.fill(9);
                }
                _ => {
                    vec.fill_with(|i| {
                        check!(i == asked, "{w}: fill_with asks for {i} after {asked} calls");
                        asked += 1;
                        !(i as u64)
                    });
                    (0..n).for_each(|i| m[i] = !(i as u64));
                }
            }
            is(&w, "iteration after a fill", vec.iter_cloned(), &m);
        }
        "C22" => {
            drop(vec);
            let mut m = model(salt, n);
            let vec: ConcurrentVec<u64> = m.iter().copied().collect();
            let other: ConcurrentVec<u64> = ConcurrentVec::new();
            other.extend(m.clone());
            let at = place(rng, n);
            let equal = rng.chance(1, 3);
            if !equal {
                match rng.below(3) {
                    0 => {
                        vec.push(5);
                    }
                    1 => {
                        other[at].set(1 << 50);
                        m[at] = 1 << 50;
                    }
                    _ => {
                        let j = place(rng, n);
                        other.swap(at, j);
                        m.swap(at, j);
                    }
                }
            }
            let c = vec.clone_to_vec();
            let e = c == m;
            check!((vec == other) == e && (other == vec) == e, "{w}: vecs which differ at {at} ({e}) are found to be {}", vec == other);
            let (s, t) = (vec.as_slice(), other.as_slice());
            check!((s == t) == e && (s == other) == e && (vec == t) == e, "{w}: slices which differ at {at} ({e})");
            check!((vec == m[..]) == e && (t == c[..]) == e && (s == m[..]) == e, "{w}: comparison with arrays which differ at {at} ({e})");
            check!(s == s && vec == vec && vec.slice(..at) == vec.slice(..at), "{w}: not equal to itself");
        }
        p => harness_error(p),
    }
    ctx.count("huge_collections", 1);
    ctx.maximum("largest_collection", n as u64);
    ctx.sig(hash2(hash_str(P::NAME), n as u64));
}

fn queries<V: View<u64, P>, P: Store<u64>>(w: &str, v: &V, m: &[u64], rng: &mut Rng) {
    let n = m.len();
    check!(v.v_len() == n && !v.v_is_empty(), "{w}: length {}", v.v_len());
    is(w, "iter", v.v_iter_vals().into_iter(), m);
    is(w, "iter_cloned", v.v_iter_cloned().into_iter(), m);
    is(w, "map", v.v_map().into_iter(), m);
    is(w, "clone_to_vec", v.v_clone_to_vec().into_iter(), m);
    let f = |a: u64, x: u64| hash2(a, x);
    check!(v.v_fold(3, f) == m.iter().fold(3, |a, x| f(a, *x)), "{w}: fold");
    check!(v.v_reduce(|a, b| f(*a, *b)) == m.iter().copied().reduce(f), "{w}: reduce");
    let i = place(rng, n);
    check!(v.v_index_of(&m[i]) == Some(i) && v.v_contains(&m[i]), "{w}: index_of the value at {i} is {:?}", v.v_index_of(&m[i]));
    check!(v.v_index_of(&(1 << 60)).is_none() && !v.v_contains(&(1 << 60)), "{w}: a value is found which is not there");
    let k = rng.next() % 7;
    check!(v.v_filter(|x| x % 7 == k).len() == m.iter().filter(|x| **x % 7 == k).count(), "{w}: filter");
    for _ in 0..20 {
        let i = place(rng, n);
        check!(v.v_get_cloned(i) == Some(m[i]) && v.v_index(i).cloned() == m[i], "{w}: element {i}");
    }
    check!(v.v_get(n).is_none() && v.v_get_cloned(n + rng.below(70_000)).is_none(), "{w}: elements behind the end");
    check!(v.v_debug() == format!("{m:?}"), "{w}: Debug");
}

/// values that own memory, dropped in all ways
fn drops(rng: &mut Rng, n: usize) {
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    #[derive(Debug)]
    struct D(#[allow(dead_code)] Box<u64>);
    impl D {
        fn new(i: u64) -> D {
            LIVE.fetch_add(1, Relaxed);
            D(Box::new(i))
        }
    }
    impl Drop for D {
        fn drop(&mut self) {
            LIVE.fetch_sub(1, Relaxed);
        }
    }
    let before = (LIVE.load(Relaxed), heap_balance());
    let live = || LIVE.load(Relaxed) - before.0;
    let kind = rng.below(6);
    let k = rng.below(n);
    let all = || (0..n as u64).map(D::new);
    {
        let mut vec: ConcurrentVec<D> = ConcurrentVec::new();
        let fixed: ConcurrentVec<D, FixedVec<ConcurrentElement<D>>> = ConcurrentVec::with_fixed_capacity(if kind == 0 { n } else { 1 });
        if kind == 0 {
            fixed.extend_n_items(all(), n);
            check!(live() == n, "{} of {n} values are alive", live());
        } else {
            vec.extend(ExactIter { it: all(), n });
            check!(live() == n, "{} of {n} values are alive", live());
            match kind {
                1 => {
                    vec.clear();
                    check!(live() == 0, "{} of {n} values are alive after clear", live());
                    vec.extend_n_items(all(), k);
                }
                2 => {
                    let v = vec.to_vec();
                    check!(live() == n && v.len() == n, "{} of {n} values are alive in to_vec", live());
                }
                3 => {
                    let mut it = vec.into_iter();
                    for _ in 0..k {
                        it.next();
                    }
                    check!(live() == n - k, "{} of {n} values are alive after {k} were taken", live());
                }
                4 => {
                    vec.fill_with(|i| D::new(i as u64));
                    check!(live() == n, "{} of {n} values are alive after fill", live());
                }
                _ => {
                    let v: ConcurrentVec<D> = ConcurrentVec::from(vec.into_inner());
                    check!(live() == n && v.len() == n, "{} of {n} values are alive in into_inner", live());
                }
            }
        }
    }
    check!(live() == 0, "{} of {n} values are alive after the vec is gone (way {kind}, {k})", live());
    let (a, b) = (before.1, heap_balance());
    check!(b.0 <= a.0, "{b:?} (bytes, blocks) are allocated after the vec is gone, {a:?} before (way {kind}, {k})");
}

/// entry point; the property decides what is looked at
pub fn huge(ctx: &mut Ctx, rng: &mut Rng, part: &'static str) {
    set_chaos(0);
    match rng.below(6) {
        0 => with::<Dbl<u64>>(ctx, rng, part),
        1 => with::<Lin<u64>>(ctx, rng, part),
        2 => with::<Fix<u64>>(ctx, rng, part),
        3 => with::<CDbl<u64>>(ctx, rng, part),
        4 => with::<CLin<u64>>(ctx, rng, part),
        _ => with::<CFix<u64>>(ctx, rng, part),
    }
}
