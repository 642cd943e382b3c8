//! One interface over vec and slice, so that every query is exercised through both.
use crate::*;
use std::ops::Bound;
use std::ops::Bound::*;

/// kinds of range arguments
#[derive(Clone, Copy, Debug)]
pub enum Ran {
    Full,
    From(usize),
    To(usize),
    ToIncl(usize),
    Half(usize, usize),
    Incl(usize, usize),
    Pair(Bound<usize>, Bound<usize>),
}
impl Ran {
    /// the positions of a sequence of length n which the range denotes; None for a reversed range
    pub fn limits(&self, n: usize) -> Option<(usize, usize)> {
        let lo = |b: Bound<usize>| match b {
            Included(a) => a,
            Excluded(a) => a + 1,
            Unbounded => 0,
        };
        let hi = |b: Bound<usize>| match b {
            Included(a) => a + 1,
            Excluded(a) => a,
            Unbounded => n,
        };
        let (a, b) = match *self {
            Ran::Full => (0, n),
            Ran::From(a) => (a, n),
            Ran::To(b) => (0, b),
            Ran::ToIncl(b) => (0, b + 1),
            Ran::Half(a, b) => (a, b),
            Ran::Incl(a, b) => (a, b + 1),
            Ran::Pair(a, b) => (lo(a), hi(b)),
        };
        let (a2, b2) = (a.min(n), b.min(n));
        match a2 <= b2 {
            true => Some((a2, b2)),
            false => None,
        }
    }
    pub fn random(rng: &mut Rng, n: usize) -> Ran {
        let m = n + 4;
        let at = |rng: &mut Rng| match rng.below(12) {
            0 => 0,
            1 => n,
            2 => n.saturating_sub(1),
            3 => n + 1,
            4 => usize::MAX / 2 + rng.below(100),
            _ => rng.below(m),
        };
        let (x, y) = (at(rng), at(rng));
        // mostly ordered
        let (x, y) = if rng.chance(7, 8) { (x.min(y), x.max(y)) } else { (x, y) };
        match rng.below(9) {
            0 => Ran::Full,
            1 => Ran::From(x),
            2 => Ran::To(y),
            3 => Ran::ToIncl(y),
            4 | 5 => Ran::Half(x, y),
            6 => Ran::Incl(x, y),
            _ => {
                let b = |rng: &mut Rng, x| match rng.below(3) {
                    0 => Unbounded,
                    1 => Included(x),
                    _ => Excluded(x),
                };
                let a = b(rng, x);
                Ran::Pair(a, b(rng, y))
            }
        }
    }
}

/// fails when its room is exceeded
pub struct Narrow(pub usize);
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

pub trait View<T: Pay, P: Store<T>> {
    fn what(&self) -> &'static str;
    fn v_len(&self) -> usize;
    fn v_is_empty(&self) -> bool;
    fn v_slice(&self, r: Ran) -> ConcurrentSlice<'_, T, P>;
    fn v_get(&self, i: usize) -> Option<&ConcurrentElement<T>>;
    fn v_get_cloned(&self, i: usize) -> Option<T>;
    fn v_index(&self, i: usize) -> &ConcurrentElement<T>;
    fn v_iter(&self) -> Vec<&ConcurrentElement<T>>;
    fn v_iter_vals(&self) -> Vec<u64>;
    fn v_iter_cloned(&self) -> Vec<u64>;
    fn v_map(&self) -> Vec<u64>;
    fn v_filter<'x>(&'x self, f: impl FnMut(u64) -> bool + 'x) -> Vec<&'x ConcurrentElement<T>>;
    fn v_fold<U>(&self, init: U, f: impl FnMut(U, u64) -> U) -> U;
    fn v_reduce(&self, f: impl FnMut(&T, &T) -> T) -> Option<T>;
    fn v_index_of(&self, v: &T) -> Option<usize>;
    fn v_contains(&self, v: &T) -> bool;
    fn v_clone_to_vec(&self) -> Vec<T>;
    fn v_debug(&self) -> String;
    /// whether Debug succeeds with a writer that fails after some bytes
    fn v_debug_into(&self, room: usize) -> bool;
    fn v_swap(&self, i: usize, j: usize) -> bool;
    fn v_fill(&self, v: T);
    fn v_fill_with(&self, f: impl FnMut(usize) -> T);
    fn v_split_at(&self, m: usize) -> (ConcurrentSlice<'_, T, P>, ConcurrentSlice<'_, T, P>);
    fn v_split_first(&self) -> Option<(&ConcurrentElement<T>, ConcurrentSlice<'_, T, P>)>;
    fn v_split_last(&self) -> Option<(&ConcurrentElement<T>, ConcurrentSlice<'_, T, P>)>;
    /// the chunks, and the size reported before each step and at the end
    fn v_chunks(&self, k: usize) -> (Vec<ConcurrentSlice<'_, T, P>>, Vec<usize>);
    /// the chunks which are reached by nth(skip), if any
    fn v_chunks_nth(&self, k: usize, skip: usize) -> Option<ConcurrentSlice<'_, T, P>>;
    fn v_copied(&self, i: usize) -> Option<T>;
    /// the iterators when advanced in other ways than step by step
    fn v_adaptors(&self, m: &[u64], k: usize, step: usize, w: &dyn Fn() -> String);
    fn v_raw(&self, i: usize) -> Option<*const T>;
    /// # Safety
    /// no concurrent writes
    unsafe fn v_ref(&self, i: usize) -> Option<&T>;
    /// # Safety
    /// no concurrent writes
    unsafe fn v_iter_ref(&self) -> Vec<u64>;
}

/// random steps of a consuming iterator and a random last one; m: the values it must yield
pub fn walk<I: Iterator>(name: &str, mut it: I, f: impl Fn(I::Item) -> u64, m: &[u64], rng: &mut Rng) {
    let n = m.len();
    let mut at = 0;
    let eq = |what: &str, at: usize, x: Option<u64>, e: Option<u64>| check!(x == e, "{name} of {n} values after {at}: {what} gives {x:x?}, expected {e:x?}");
    for _ in 0..rng.below(6) {
        match rng.below(4) {
            0 => {
                eq("next", at, it.next().map(&f), m.get(at).copied());
                at += 1;
            }
            1 | 2 => {
                let k = match rng.bool() {
                    true => rng.below(3),
                    false => rng.below(n.saturating_sub(at) + 2),
                };
                eq("nth", at, it.nth(k).map(&f), m.get(at + k).copied());
                at += k + 1;
            }
            _ => {
                let left = n.saturating_sub(at);
                let (lo, hi) = it.size_hint();
                check!(lo <= left && hi.map_or(true, |h| h >= left), "{name}: the size hint is ({lo}, {hi:?}) when {left} values are left");
                let k = rng.below(left + 1);
                let x: Vec<u64> = it.by_ref().take(k).map(&f).collect();
                check!(x[..] == m[at.min(n)..][..k], "{name} of {n} values after {at}: take({k}) gives {x:x?}");
                at += k;
            }
        }
        if at > n {
            return;
        }
    }
    let rest = &m[at..];
    match rng.below(6) {
        0 => check!(it.count() == rest.len(), "{name} of {n} values after {at}: wrong count"),
        1 => eq("last", at, it.last().map(&f), rest.last().copied()),
        2 => {
            let step = rng.range(1, 4);
            let x: Vec<u64> = it.step_by(step).map(&f).collect();
            let e: Vec<u64> = rest.iter().copied().step_by(step).collect();
            check!(x == e, "{name} of {n} values after {at}: step_by({step}) gives {x:x?}, expected {e:x?}");
        }
        3 => {
            let x = it.fold(vec![], |mut v, x| {
                v.push(f(x));
                v
            });
            check!(x == rest, "{name} of {n} values after {at}: fold gives {x:x?}, expected {rest:x?}");
        }
        4 => {
            let k = rng.below(rest.len() + 2);
            let x: Vec<u64> = it.skip(k).map(&f).collect();
            check!(x == rest[k.min(rest.len())..], "{name} of {n} values after {at}: skip({k}) gives {x:x?}, expected {rest:x?}");
        }
        _ => {}
    }
}

fn adaptors<I: Iterator>(name: &str, mk: impl Fn() -> I, f: impl Fn(I::Item) -> u64, m: &[u64], k: usize, step: usize, w: &dyn Fn() -> String) {
    let n = m.len();
    let (lo, hi) = mk().size_hint();
    check!(lo <= n && hi.map_or(true, |h| h >= n), "{}: the size hint of {name} is ({lo}, {hi:?}) for {n} elements", w());
    check!(mk().count() == n, "{}: {name}.count() is not {n}", w());
    let x = mk().last().map(&f);
    check!(x == m.last().copied(), "{}: {name}.last() is {x:x?}, expected {:x?}", w(), m.last());
    let mut it = mk();
    let x = it.nth(k).map(&f);
    check!(x == m.get(k).copied(), "{}: {name}.nth({k}) is {x:x?}, expected {:x?}", w(), m.get(k));
    if k < n {
        let x = it.next().map(&f);
        check!(x == m.get(k + 1).copied(), "{}: {name}.nth({k}) is followed by {x:x?}, expected {:x?}", w(), m.get(k + 1));
        let (lo, hi) = it.size_hint();
        let left = n.saturating_sub(k + 2);
        check!(lo <= left && hi.map_or(true, |h| h >= left), "{}: the size hint of {name} is ({lo}, {hi:?}) when {left} elements are left", w());
    }
    let x: Vec<u64> = mk().skip(k).step_by(step).map(&f).collect();
    let e: Vec<u64> = m.iter().copied().skip(k).step_by(step).collect();
    check!(x == e, "{}: {name}.skip({k}).step_by({step}) gives {:?}, expected {:?}", w(), seq::diff(&x, &e), seq::diff(&e, &x));
}

macro_rules! view {
    ([$($g:tt)*] $ty:ty, $name:expr) => {
        impl<$($g)* T: Pay, P: Store<T>> View<T, P> for $ty {
            fn what(&self) -> &'static str { $name }
            fn v_len(&self) -> usize { self.len() }
            fn v_is_empty(&self) -> bool { self.is_empty() }
            fn v_slice(&self, r: Ran) -> ConcurrentSlice<'_, T, P> {
                match r {
                    Ran::Full => self.slice(..),
                    Ran::From(a) => self.slice(a..),
                    Ran::To(b) => self.slice(..b),
                    Ran::ToIncl(b) => self.slice(..=b),
                    Ran::Half(a, b) => self.slice(a..b),
                    Ran::Incl(a, b) => self.slice(a..=b),
                    Ran::Pair(a, b) => self.slice((a, b)),
                }
            }
            fn v_get(&self, i: usize) -> Option<&ConcurrentElement<T>> { self.get(i) }
            fn v_get_cloned(&self, i: usize) -> Option<T> { self.get_cloned(i) }
            fn v_index(&self, i: usize) -> &ConcurrentElement<T> { &self[i] }
            fn v_iter(&self) -> Vec<&ConcurrentElement<T>> { self.iter().collect() }
            fn v_iter_vals(&self) -> Vec<u64> { self.iter().map(|e| e.map(|x| x.val())).collect() }
            fn v_iter_cloned(&self) -> Vec<u64> { self.iter_cloned().map(|x| x.val()).collect() }
            fn v_map(&self) -> Vec<u64> { self.map(|x| x.val()).collect() }
            fn v_filter<'x>(&'x self, mut f: impl FnMut(u64) -> bool + 'x) -> Vec<&'x ConcurrentElement<T>> {
                self.filter(move |x| f(x.val())).collect()
            }
            fn v_fold<U>(&self, init: U, mut f: impl FnMut(U, u64) -> U) -> U {
                self.fold(init, |u, x| f(u, x.val()))
            }
            fn v_reduce(&self, f: impl FnMut(&T, &T) -> T) -> Option<T> { self.reduce(f) }
            fn v_index_of(&self, v: &T) -> Option<usize> { self.index_of(v) }
            fn v_contains(&self, v: &T) -> bool { self.contains(v) }
            fn v_clone_to_vec(&self) -> Vec<T> { self.clone_to_vec() }
            fn v_debug(&self) -> String { format!("{:?}", self) }
            fn v_debug_into(&self, room: usize) -> bool { std::fmt::write(&mut Narrow(room), format_args!("{:?}", self)).is_ok() }
            fn v_swap(&self, i: usize, j: usize) -> bool { self.swap(i, j) }
            fn v_fill(&self, v: T) { self.fill(v) }
            fn v_fill_with(&self, f: impl FnMut(usize) -> T) { self.fill_with(f) }
            fn v_split_at(&self, m: usize) -> (ConcurrentSlice<'_, T, P>, ConcurrentSlice<'_, T, P>) { self.split_at(m) }
            fn v_split_first(&self) -> Option<(&ConcurrentElement<T>, ConcurrentSlice<'_, T, P>)> { self.split_first() }
            fn v_split_last(&self) -> Option<(&ConcurrentElement<T>, ConcurrentSlice<'_, T, P>)> { self.split_last() }
            fn v_chunks(&self, k: usize) -> (Vec<ConcurrentSlice<'_, T, P>>, Vec<usize>) {
                let mut it = self.chunks(k);
                let (mut c, mut n) = (vec![], vec![]);
                loop {
                    let (a, b) = it.size_hint();
                    check!(b == Some(a) && it.len() == a, "chunks({k}): size hint ({a}, {b:?}) and len() {} differ", it.len());
                    n.push(a);
                    match it.next() {
                        Some(x) => c.push(x),
                        None => break,
                    }
                    if c.len() > 1_000_000 {
                        violation("chunks does not end");
                    }
                }
                (c, n)
            }
            fn v_chunks_nth(&self, k: usize, skip: usize) -> Option<ConcurrentSlice<'_, T, P>> {
                self.chunks(k).nth(skip)
            }
            fn v_copied(&self, i: usize) -> Option<T> { T::copied_in(&self.slice(..), i) }
            fn v_adaptors(&self, m: &[u64], k: usize, step: usize, w: &dyn Fn() -> String) {
                adaptors("iter", || self.iter(), |e| e.map(|x| x.val()), m, k, step, w);
                adaptors("iter_cloned", || self.iter_cloned(), |x| x.val(), m, k, step, w);
                adaptors("map", || self.map(|x| x.val()), |x| x, m, k, step, w);
                adaptors("filter", || self.filter(|_| true), |e| e.map(|x| x.val()), m, k, step, w);
            }
            fn v_raw(&self, i: usize) -> Option<*const T> { self.get_raw(i) }
            unsafe fn v_ref(&self, i: usize) -> Option<&T> { self.get_ref(i) }
            unsafe fn v_iter_ref(&self) -> Vec<u64> { self.iter_ref().map(|x| x.val()).collect() }
        }
    };
}
view!([] ConcurrentVec<T, P>, "vec");
view!(['a,] ConcurrentSlice<'a, T, P>, "slice");

/// every read-only query of a view against the ordinary vector `m` which it should equal
pub fn queries<T: Pay, P: Store<T>, V: View<T, P> + ?Sized>(v: &V, m: &[u64], rng: &mut Rng, ctx_what: &dyn Fn() -> String) -> u64 {
    let n = m.len();
    let w = || format!("{} ({})", ctx_what(), v.what());
    check!(v.v_len() == n, "{}: len is {} instead of {n}", w(), v.v_len());
    check!(v.v_is_empty() == (n == 0), "{}: is_empty is wrong for length {n}", w());
    let same = |how: &str, x: Vec<u64>| {
        check!(x == m, "{}: {how} gives {:?}, expected {:?}", w(), seq::diff(&x, m), seq::diff(m, &x));
    };
    let mut done = 2;
    for q in 0..15 {
        if rng.chance(1, 3) {
            continue;
        }
        done += 1;
        match q {
            0 => {
                same("iter", v.v_iter_vals());
                let e = v.v_iter();
                check!(e.len() == n, "{}: iter yields {} of {n}", w(), e.len());
                for _ in 0..3.min(n) {
                    let i = rng.below(n);
                    check!(std::ptr::eq(e[i], v.v_index(i)), "{}: iter yields another element at {i} than indexing", w());
                }
            }
            1 => same("iter_cloned", v.v_iter_cloned()),
            2 => same("map", v.v_map()),
            3 => {
                let k = rng.range(1, 4) as u64;
                let mut seen = vec![];
                let x: Vec<u64> = v.v_filter(|x| { seen.push(x); mix(x) % k == 0 }).iter().map(|e| e.map(|x| x.val())).collect();
                let e: Vec<u64> = m.iter().copied().filter(|x| mix(*x) % k == 0).collect();
                check!(x == e, "{}: filter gives {:?}, expected {:?}", w(), seq::diff(&x, &e), seq::diff(&e, &x));
                same("the elements visited by filter are", seen);
            }
            4 => {
                let mut seen = vec![];
                let x = v.v_fold(7u64, |a, x| { seen.push(x); hash2(a, x) });
                let e = m.iter().fold(7u64, |a, x| hash2(a, *x));
                same("the elements visited by fold are", seen);
                check!(x == e, "{}: fold gives another result than over a vector", w());
            }
            5 => {
                let mut seen = vec![];
                let x = v.v_reduce(|a, b| { seen.push((a.val(), b.val())); T::make((a.val() ^ b.val()) | 1) }).map(|x| x.val());
                let mut exp = vec![];
                let e = m.iter().copied().reduce(|a, b| { exp.push((a, b)); (a ^ b) | 1 });
                check!(x == e && seen == exp, "{}: reduce gives {x:?} by {:?} instead of {e:?} by {:?}", w(), seen.len(), exp.len());
            }
            6 | 7 => {
                let x = match rng.below(4) {
                    _ if n == 0 => 3,
                    0 => m[0],
                    1 => m[n - 1],
                    2 => m[rng.below(n)],
                    _ => rng.next() | 1 << 63,
                };
                let e = m.iter().position(|y| T::same(*y, x));
                let t = T::make(x);
                let i = v.v_index_of(&t);
                check!(i == e, "{}: index_of({x:x}) is {i:?} instead of {e:?}", w());
                check!(v.v_contains(&t) == e.is_some(), "{}: contains({x:x}) is wrong", w());
            }
            8 => same("clone_to_vec", v.v_clone_to_vec().iter().map(|x| x.val()).collect()),
            9 => {
                let s = v.v_debug();
                let e = format!("{:?}", m.iter().map(|x| T::make(*x)).collect::<Vec<T>>());
                // a writer that fails makes formatting fail
                let room = rng.below(e.len() + 3);
                let r = v.v_debug_into(room);
                check!(r == (e.len() <= room), "{}: Debug of {} bytes into a writer with room for {room} {}", w(), e.len(), if r { "succeeds" } else { "fails" });
                check!(s == e, "{}: Debug gives {} instead of {}", w(), s.chars().take(200).collect::<String>(), e.chars().take(200).collect::<String>());
            }
            10 => {
                for _ in 0..4 {
                    let i = match rng.below(6) {
                        0 => n,
                        1 => n + 1 + rng.below(70),
                        2 => rng.beyond(n),
                        3 => n.saturating_sub(1),
                        _ => rng.below(n + 1),
                    };
                    let e = m.get(i).copied();
                    let a = v.v_get(i).map(|x| x.map(|x| x.val()));
                    let b = v.v_get_cloned(i).map(|x| x.val());
                    let c = unsafe { v.v_ref(i) }.map(|x| x.val());
                    let d = v.v_raw(i).map(|x| unsafe { (*x).val() });
                    check!(a == e && b == e && c == e && d == e, "{}: get / get_cloned / get_ref / get_raw({i}) are {a:?} / {b:?} / {c:?} / {d:?} instead of {e:?}", w());
                    if e.is_some() {
                        let x = v.v_index(i).map(|x| x.val());
                        check!(Some(x) == e, "{}: [{i}] is {x:x} instead of {e:?}", w());
                    } else if i % 4 == 0 || n < 40 {
                        check!(panics(|| _ = v.v_index(i)).is_none(), "{}: indexing at {i} of {n} does not panic", w());
                    }
                }
            }
            13 => {
                let i = rng.below(n + 2);
                let x = v.v_copied(i).map(|x| x.val());
                check!(x == m.get(i).copied(), "{}: get_copied({i}) is {x:x?} instead of {:x?}", w(), m.get(i));
            }
            14 => v.v_adaptors(m, rng.below(n + 2), rng.range(1, 4), &w),
            11 => same("iter_ref", unsafe { v.v_iter_ref() }),
            _ => {
                // lazily: only as many as asked for, in order
                let k = rng.below(n + 1);
                let x: Vec<u64> = v.v_slice(Ran::To(k)).iter().take(3).map(|e| e.map(|x| x.val())).collect();
                check!(x[..] == m[..k.min(3)], "{}: the first elements are {x:x?}", w());
            }
        }
    }
    done
}
