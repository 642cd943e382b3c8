use mon::growth::*;
use mon::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// what a position may hold
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pos {
    Must(u64),
    /// given by a growth call which panicked later on
    Maybe(u64),
    Never,
}
use Pos::*;

/// iterator that raises a panic instead of its k-th item
struct Bomb {
    vals: Vec<u64>,
    at: usize,
    k: usize,
    /// the length which it reports
    n: usize,
}
impl Iterator for Bomb {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.k == self.at {
            user(chaos_point);
            inject(self.at as u64);
        }
        let v = self.vals.get(self.k).copied();
        self.k += 1;
        v.map(Tok::new)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.n.saturating_sub(self.k);
        (n, Some(n))
    }
}
impl ExactSizeIterator for Bomb {}
impl Bomb {
    fn new(vals: &[u64], at: usize) -> Self {
        Bomb { vals: vals.to_vec(), at, k: 0, n: vals.len() }
    }
}
/// panics on conversion into an iterator
struct BombIntoIter;
impl IntoIterator for BombIntoIter {
    type Item = Tok;
    type IntoIter = Bomb;
    fn into_iter(self) -> Bomb {
        inject(1)
    }
}
/// panics when it is asked for its length
struct BombLen(Bomb);
impl Iterator for BombLen {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        inject(2)
    }
}
impl ExactSizeIterator for BombLen {
    fn len(&self) -> usize {
        inject(2)
    }
}

/// a growth call that panics; (number of items asked for, values given before, position told to the closure)
fn grow_panic<P: Store<Tok>>(vec: &ConcurrentVec<Tok, P>, rng: &mut Rng, max_batch: usize, mut next: impl FnMut() -> u64) -> (usize, Vec<u64>, Option<usize>, &'static str) {
    let n = rng.range(1, max_batch);
    let vals: Vec<u64> = (0..n).map(|_| next()).collect();
    let at = rng.below(n);
    let told = Cell::new(None);
    let tell = |i: usize| told.set(Some(i));
    // panics of the vec itself are expected if the iterator does not keep its promise
    let (given, own, name, r) = match rng.below(11) {
        0 | 1 => (0, false, "push_for_idx", op("push_for_idx", || panicked(|| vec.push_for_idx(|i| {
            tell(i);
            user(chaos_point);
            inject(3)
        })))),
        2 => (at, false, "extend", op("extend", || panicked(|| vec.extend(Bomb::new(&vals, at))))),
        3 => (at, false, "extend_n_items", op("extend_n_items", || panicked(|| vec.extend_n_items(Bomb::new(&vals, at), n)))),
        4 => (at, false, "extend_for_idx", op("extend_for_idx", || panicked(|| vec.extend_for_idx(|i| {
            tell(i);
            Bomb::new(&vals, at)
        }, n)))),
        5 => (0, false, "extend_for_idx closure", op("extend_for_idx", || panicked(|| vec.extend_for_idx(|i| -> Bomb {
            tell(i);
            user(chaos_point);
            inject(4)
        }, n)))),
        6 => {
            // shorter than promised
            (at, true, "extend_n_items too short", op("extend_n_items", || panicked(|| vec.extend_n_items(vals[..at].iter().map(|v| Tok::new(*v)), n))))
        }
        7 => (at, true, "extend too short", op("extend", || panicked(|| vec.extend(Bomb { vals: vals[..at].to_vec(), at: usize::MAX, k: 0, n })))),
        8 => {
            let m = at + if rng.bool() { 0 } else { n + 1 };
            (m.min(n), true, "extend_for_idx wrong length", op("extend_for_idx", || panicked(|| vec.extend_for_idx(|i| {
                tell(i);
                (0..m).map(|k| Tok::new(vals.get(k).copied().unwrap_or(9))).collect::<Vec<_>>()
            }, n))))
        }
        9 => (0, false, "into_iter", op("extend", || panicked(|| vec.extend_n_items(BombIntoIter, n)))),
        _ => (0, false, "len", op("extend", || panicked(|| vec.extend(BombLen(Bomb::new(&vals, at)))))),
    };
    match r {
        None => violation(format!("{}: {name} of {n} items with {given} given did not panic although its argument does not deliver", P::NAME)),
        Some(injected) => check!(injected || own, "{}: {name}: another panic than the one of the user's code reached the caller", P::NAME),
    }
    (if name == "push_for_idx" { 1 } else { n }, vals[..given].to_vec(), told.get(), name)
}

/// None: no panic; Some(true): the injected panic; Some(false): another one
fn panicked<R>(f: impl FnOnce() -> R) -> Option<bool> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(_) => None,
        Err(p) => Some(p.downcast_ref::<Injected>().is_some()),
    }
}

const SITES: usize = 24;
/// a callback panics during an operation on the elements; `t` is the element which it is about.
/// Returns whether it was reached, and the changes that were made before.
fn site<P: Store<Tok>, V: View<Tok, P>>(v: &V, m: &[u64], t: usize, k: usize, rng: &mut Rng, mut next: impl FnMut() -> u64) -> (&'static str, Vec<(usize, u64)>) {
    let (n, x) = (m.len(), m[t]);
    let e = v.v_index(t);
    let mut changes = vec![];
    let hit = |a: u64| {
        if a == x {
            inject(7)
        }
    };
    let (name, r) = match k % SITES {
        0 => ("element map", panicked(|| e.map(|_| inject(1)))),
        1 => ("update before the change", panicked(|| e.update(|_| inject(1)))),
        2 => {
            let new = next();
            changes.push((t, new));
            ("update after the change", panicked(|| e.update(|x| {
                x.put(new);
                inject(2)
            })))
        }
        3 => {
            let new = next();
            changes.push((t, new));
            ("update after assigning", panicked(|| e.update(|x| {
                *x = Tok::new(new);
                inject(2)
            })))
        }
        4 => {
            tok_panic_on_clone(x);
            ("cloned", panicked(|| e.cloned()))
        }
        5 => {
            let new = next();
            changes.push((t, new));
            tok_panic_on_drop(x);
            ("drop of the value replaced by set", panicked(|| e.set(Tok::new(new))))
        }
        6 => {
            let o = v.v_index(rng.below(n));
            tok_panic_on_eq(x);
            ("element == element", panicked(|| if rng.bool() { e == o } else { o == e }))
        }
        7 => {
            let o = Tok::new(x);
            tok_panic_on_eq(x);
            ("element == value", panicked(|| *e == o))
        }
        8 => {
            tok_panic_on_debug(x);
            ("element Debug", panicked(|| format!("{e:?}")))
        }
        9 => ("iter map", panicked(|| v.v_iter().into_iter().for_each(|e| e.map(|a| hit(a.val()))))),
        10 => ("filter", panicked(|| v.v_filter(|a| {
            hit(a);
            true
        }).len())),
        11 => ("fold", panicked(|| v.v_fold(0u64, |s, a| {
            hit(a);
            s + a % 7
        }))),
        // with several elements, a reduction can do without a clone
        12 if n == 1 => {
            tok_panic_on_clone(m[0]);
            ("clone in reduce", panicked(|| v.v_reduce(|a, _| Tok::new(a.val()))))
        }
        13 if n > 1 => {
            let at = rng.below(n - 1);
            let mut c = 0;
            ("reduce", panicked(|| v.v_reduce(|a, b| {
                if c == at {
                    inject(8)
                }
                c += 1;
                Tok::new(a.val() ^ b.val())
            })))
        }
        14 => {
            tok_panic_on_clone(x);
            ("iter_cloned", panicked(|| v.v_iter_cloned()))
        }
        15 => {
            tok_panic_on_clone(x);
            ("clone_to_vec", panicked(|| v.v_clone_to_vec()))
        }
        16 => {
            let o = Tok::new(next());
            tok_panic_on_eq(x);
            ("index_of", panicked(|| v.v_index_of(&o)))
        }
        17 => {
            let o = Tok::new(next());
            tok_panic_on_eq(x);
            ("contains", panicked(|| v.v_contains(&o)))
        }
        18 => {
            tok_panic_on_debug(x);
            ("Debug", panicked(|| v.v_debug()))
        }
        19 => {
            let new = next();
            for i in 0..t {
                changes.push((i, new + i as u64));
            }
            for _ in 0..n {
                next();
            }
            ("fill_with", panicked(|| v.v_fill_with(|i| {
                if i == t {
                    inject(9)
                }
                Tok::new(new + i as u64)
            })))
        }
        20 => {
            let new = next();
            // the first element with this value
            for i in 0..=m.iter().position(|y| *y == x).unwrap_or(t) {
                changes.push((i, new));
            }
            tok_panic_on_drop(x);
            ("drop of a value replaced by fill", panicked(|| v.v_fill(Tok::new(new))))
        }
        // the last element may be given the value itself
        21 if n > 1 => {
            let new = next();
            tok_panic_on_clone(new);
            ("clone in fill", panicked(|| v.v_fill(Tok::new(new))))
        }
        22 => {
            tok_panic_on_clone(x);
            ("get_cloned", panicked(|| v.v_get_cloned(t)))
        }
        _ => ("map", panicked(|| e.map(|a| hit(a.val())))),
    };
    check!(r == Some(true), "{}: {name} at {t} of {n} in {}: the panic of the user's code did not reach the caller", P::NAME, v.what());
    tok_panic_on_clone(u64::MAX);
    tok_panic_on_eq(u64::MAX);
    tok_panic_on_debug(u64::MAX);
    tok_panic_on_drop(u64::MAX);
    (name, changes)
}

struct Sys<P: Store<Tok>> {
    vec: ConcurrentVec<Tok, P>,
    pos: Vec<Pos>,
    log: Vec<String>,
    seen: usize,
}
impl<P: Store<Tok>> Sys<P> {
    fn what(&self) -> String {
        format!("{} after {:?}", P::NAME, &self.log[self.log.len().saturating_sub(8)..])
    }
    fn grown(&mut self, g: &Grown) {
        check!(g.begin <= self.pos.len(), "{}: {} of {} got position {}, at most {} are taken", self.what(), g.kind, g.vals.len(), g.begin, self.pos.len());
        check!(!self.pos[g.begin..].iter().any(|p| matches!(p, Must(_))), "{}: {} got position {}, which is taken", self.what(), g.kind, g.begin);
        self.pos.truncate(g.begin);
        self.pos.extend(g.vals.iter().map(|v| Must(*v)));
        self.log.push(format!("{}({})={}", g.kind, g.vals.len(), g.begin));
    }
    /// bounds of the length
    fn bounds(&self) -> (usize, usize) {
        let n = self.pos.len();
        let lo = self.pos.iter().position(|p| !matches!(p, Must(_))).unwrap_or(n);
        let hi = self.pos.iter().position(|p| *p == Never).unwrap_or(n);
        (lo, hi)
    }
    fn verify(&mut self, probe: bool) {
        let w = self.what();
        let (lo, hi) = self.bounds();
        let len = self.vec.len();
        check!(lo <= len && len <= hi, "{w}: the length is {len}, expected {lo}..={hi}");
        check!(len >= self.seen, "{w}: the length decreased from {} to {len}", self.seen);
        self.seen = len;
        let c = contents(&self.vec);
        check!(c.len() == len, "{w}: {} elements by iteration, length {len}", c.len());
        for (i, x) in c.iter().enumerate() {
            match self.pos[i] {
                Must(v) | Maybe(v) if v == *x => {}
                p => violation(format!("{w}: position {i} holds {x:x}, expected {p:x?}")),
            }
        }
        check!(self.vec.get(len).is_none(), "{w}: get({len}) is present although the length is {len}");
        for i in len..self.pos.len() + 2 {
            match (self.vec.get_cloned(i).map(|x| x.val()), self.pos.get(i)) {
                (None, _) => {}
                (Some(x), Some(Must(v) | Maybe(v))) if x == *v => {}
                (x, p) => violation(format!("{w}: position {i} reads as {x:x?} by get_cloned, expected {p:?}")),
            }
        }
        if probe {
            // nothing is locked
            for i in 0..len {
                self.vec[i].update(|x| {
                    x.check("probe");
                });
                check!(self.vec[i] == self.vec[i], "{w}: element {i} is not equal to itself");
            }
            if len > 1 {
                check!(self.vec.swap(0, len - 1) && self.vec.swap(len - 1, 0), "{w}: swap failed");
            }
        }
    }
}

/// all callbacks panic one after the other
fn each<P: Store<Tok>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let batch = *rng.pick(&[1, 3, 9, ctx.size(30, 20, 5)]);
    let rounds = rng.range(2, ctx.size(24, 14, 5));
    let need = (rounds + 2) * (batch.max(12) * 2);
    let mut s = Sys { vec: P::build(rng, need), pos: vec![], log: vec![], seen: 0 };
    let mut k = 0u64;
    let mut h = hash_str(P::NAME);
    for _ in 0..rounds {
        // orderly growth
        for _ in 0..rng.below(4) {
            let (kind, n) = (rng.below(5), rng.below(batch + 1));
            let g = grow_once(&s.vec, kind, n, false, 0, || {
                k += 1;
                k
            });
            if g.vals.is_empty() {
                continue;
            }
            s.grown(&g);
        }
        let gap = s.pos.iter().any(|p| !matches!(p, Must(_)));
        match rng.below(10) {
            0..=2 => {
                let before = s.pos.len();
                let (n, given, told, name) = grow_panic(&s.vec, rng, batch, || {
                    k += 1;
                    k
                });
                if let Some(i) = told {
                    check!(i <= before, "{}: {name} was told position {i}, expected {before} at most", s.what());
                }
                s.pos.extend(given.iter().map(|v| Maybe(*v)));
                s.pos.resize(before + n, Never);
                s.log.push(format!("panic in {name}({n}) after {}", given.len()));
                ctx.count("panicked_growths", 1);
                h = hash2(h, hash2(hash_str(name), given.len() as u64));
                s.verify(true);
                // the next call tells how many positions are gone
                let kind = rng.below(2);
                let g = grow_once(&s.vec, kind, 1, false, 0, || {
                    k += 1;
                    k
                });
                check!(g.begin >= before, "{}: a call got position {}, {before} positions were taken", s.what(), g.begin);
                s.grown(&g);
            }
            3 if gap || rng.chance(1, 3) => {
                // a value panics while it is dropped by clear
                let len = s.vec.len();
                let x = (len > 0 && rng.bool()).then(|| s.vec[rng.below(len)].map(|x| x.val()));
                if let Some(x) = x {
                    tok_panic_on_drop(x);
                    check!(panicked(|| s.vec.clear()) == Some(true), "{}: the panic of a value's drop did not reach the caller of clear", s.what());
                    tok_panic_on_drop(u64::MAX);
                    s.log.push("panic in clear".into());
                    ctx.count("panicked_clears", 1);
                    // whatever is left is alive, each value at its position
                    for (i, x) in contents(&s.vec).iter().enumerate() {
                        check!(matches!(s.pos.get(i), Some(Must(v) | Maybe(v)) if v == x), "{}: position {i} holds {x:x}", s.what());
                    }
                }
                s.vec.clear();
                s.log.push("clear".into());
                s.pos.clear();
                s.seen = 0;
                h = hash2(h, 5);
            }
            _ => {
                let len = s.vec.len();
                if len == 0 {
                    continue;
                }
                let m = contents(&s.vec);
                let site_k = rng.below(SITES);
                let t = rng.below(len);
                let mut nx = || {
                    k += 1;
                    k
                };
                let (name, changes) = if rng.bool() {
                    site::<P, _>(&s.vec, &m, t, site_k, rng, &mut nx)
                } else {
                    let a = rng.below(t + 1);
                    let b = rng.range(t + 1, len);
                    let sl = s.vec.slice(a..b);
                    let (name, c) = site::<P, _>(&sl, &m[a..b], t - a, site_k, rng, &mut nx);
                    (name, c.into_iter().map(|(i, v)| (i + a, v)).collect())
                };
                for (i, v) in changes {
                    s.pos[i] = match s.pos[i] {
                        Maybe(_) => Maybe(v),
                        _ => Must(v),
                    };
                }
                s.log.push(format!("panic in {name} at {t}"));
                ctx.count("panicked_callbacks", 1);
                h = hash2(h, hash2(hash_str(name), t as u64));
            }
        }
        s.verify(true);
    }
    ctx.sig(h);
    ctx.sample(|| s.what());
    finish(ctx, s.vec, &s.pos, &s.log, rng);
}

/// the vec is taken apart; values are where they belong and are dropped once at most
fn finish<P: Store<Tok>>(ctx: &mut Ctx, mut vec: ConcurrentVec<Tok, P>, pos: &[Pos], log: &[String], rng: &mut Rng) {
    let gap = pos.iter().any(|p| !matches!(p, Must(_)));
    let w = || format!("{} after {:?}", P::NAME, &log[log.len().saturating_sub(8)..]);
    match rng.below(if gap { 4 } else { 5 }) {
        0 => {
            if let Some(p) = panics(|| vec.into_inner()) {
                for (i, want) in pos.iter().enumerate() {
                    let x = p.get(i).and_then(|e| panics(|| e.map(|x| x.val())));
                    match (x, want) {
                        (Some(x), Must(v) | Maybe(v)) if x == *v => {}
                        (None, Maybe(_) | Never) => {}
                        _ => violation(format!("{}: position {i} holds {x:x?} in the pinned vector, expected {want:x?}", w())),
                    }
                }
                ctx.count("positions_behind_panics", pos.len() as u64);
            } else {
                check!(gap, "{}: into_inner panicked", w());
            }
        }
        1 => {
            // conversions might refuse gaps, but must not break anything
            let r = panics(|| vec.to_vec().iter().map(|x| x.val()).collect::<Vec<_>>());
            check!(r.is_some() || gap, "{}: to_vec panicked", w());
        }
        2 => {
            let r = panics(|| vec.into_iter().map(|x| x.val()).collect::<Vec<_>>());
            check!(r.is_some() || gap, "{}: into_iter panicked", w());
        }
        3 => {
            vec.clear();
            for i in 0..20.min(vec.maximum_capacity()) {
                check!(vec.push(Tok::new(i as u64)) == i, "{}: wrong position after clear", w());
            }
            let n = vec.len();
            check!(contents(&vec) == (0..n as u64).collect::<Vec<_>>(), "{}: wrong contents after clear", w());
        }
        _ => {
            // a value panics while the vec is dropped
            let len = vec.len();
            if len > 0 {
                tok_panic_on_drop(vec[rng.below(len)].map(|x| x.val()));
            }
            let r = panicked(move || drop(vec));
            tok_panic_on_drop(u64::MAX);
            check!(r != Some(false), "{}: another panic while dropping the vec", w());
            ctx.count("panicked_drops", 1);
        }
    }
}
fn each_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, each, Tok, (ctx, rng));
}

/// operations which exist for the default storage only
fn default_only(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let n = rng.range(1, ctx.size(40, 20, 6));
    let vec: ConcurrentVec<Tok> = (0..n as u64).map(Tok::new).collect();
    let t = rng.below(n);
    let other: Vec<Tok> = (0..n as u64).map(Tok::new).collect();
    let vec2: ConcurrentVec<Tok> = (0..n as u64).map(Tok::new).collect();
    let (name, r) = match rng.below(9) {
        0 => {
            tok_panic_on_clone(t as u64);
            ("clone", panicked(|| vec.clone()))
        }
        1 => {
            tok_panic_on_eq(t as u64);
            ("vec == vec", panicked(|| vec == vec2))
        }
        2 => {
            tok_panic_on_eq(t as u64);
            ("vec == itself", panicked(|| vec == vec))
        }
        3 => {
            tok_panic_on_eq(t as u64);
            ("vec == slice", panicked(|| vec == vec2.slice(..)))
        }
        4 => {
            tok_panic_on_eq(t as u64);
            ("slice == vec", panicked(|| vec.slice(..) == vec2))
        }
        5 => {
            tok_panic_on_eq(t as u64);
            ("slice == slice", panicked(|| vec.slice(..) == vec.slice(..)))
        }
        6 => {
            tok_panic_on_eq(t as u64);
            ("vec == [T]", panicked(|| vec == other[..]))
        }
        7 => {
            tok_panic_on_eq(t as u64);
            ("slice == [T]", panicked(|| vec.slice(..) == other[..]))
        }
        _ => {
            let vals: Vec<u64> = (0..n as u64).collect();
            let b = Bomb::new(&vals, t);
            ("from_iter", panicked(|| match rng.bool() {
                true => b.collect::<ConcurrentVec<Tok>>(),
                false => b.filter(|_| true).collect::<ConcurrentVec<Tok>>(),
            }))
        }
    };
    check!(r == Some(true), "{name} at {t} of {n}: the panic of the user's code did not reach the caller");
    tok_panic_on_clone(u64::MAX);
    tok_panic_on_eq(u64::MAX);
    for v in [&vec, &vec2] {
        let c = contents(v);
        check!(c == (0..n as u64).collect::<Vec<_>>(), "{name} at {t} of {n}: contents changed to {c:x?}");
        for i in 0..n {
            v[i].update(|x| x.check("probe"));
        }
        check!(v.push(Tok::new(n as u64)) == n && v.len() == n + 1, "{name} at {t} of {n}: push after the panic");
    }
    ctx.count("panicked_comparisons_and_clones", 1);
    ctx.sig(hash2(hash_str(name), hash2(n as u64, t as u64)));
}

/// many threads whose callbacks panic
fn storm<P: Store<Tok>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = rng.range(2, ctx.size(6, 4, 2));
    let per = rng.range(1, ctx.size(6, 4, 2));
    let pre = threads * per;
    let calls = rng.range(3, ctx.size(60, 30, 5));
    let batch = *rng.pick(&[1, 4, ctx.size(16, 10, 4)]);
    let vec = P::build(rng, pre + threads * calls * batch);
    let init: Vec<u64> = (0..pre).map(|i| uniq(1 << 20, i as u64)).collect();
    for v in &init {
        vec.push(Tok::new(*v));
    }
    set_chaos(*rng.pick(&[0, 60, 160]));
    let orderly = rng.range(30, 90);
    struct Out {
        own: Vec<u64>,
        grown: Vec<Grown>,
        failed: Vec<(usize, Vec<u64>, Option<usize>)>,
        sites: u64,
    }
    let running = AtomicUsize::new(threads);
    let jobs: Vec<Job<Out>> = (0..threads)
        .map(|t| {
            let (vec, init, running) = (&vec, &init, &running);
            let mut rng = rng.fork(t as u64);
            job!(move |_| {
                let mut k = 0u64;
                let mut o = Out { own: (0..per).map(|j| init[j * threads + t]).collect(), grown: vec![], failed: vec![], sites: 0 };
                for _ in 0..calls {
                    match rng.below(4) {
                        0 if rng.below(100) < orderly => {
                            let (kind, n) = (rng.below(5), rng.below(batch + 1));
                            o.grown.push(grow_once(vec, kind, n, true, t, || {
                                k += 1;
                                uniq(t, k)
                            }));
                        }
                        0 => {
                            let (n, given, told, _) = grow_panic(vec, &mut rng, batch, || {
                                k += 1;
                                uniq(t, k)
                            });
                            o.failed.push((n, given, told));
                        }
                        1 => {
                            // own elements are changed by nobody else
                            let j = rng.below(per);
                            let (i, x) = (j * threads + t, o.own[j]);
                            let site_k = *rng.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 22]);
                            let sl = vec.slice(i..i + 1);
                            let (_, changes) = op("panicking operation", || site::<P, _>(&sl, &[x], 0, site_k, &mut rng, || {
                                k += 1;
                                uniq(t, k)
                            }));
                            for (_, v) in changes {
                                o.own[j] = v;
                            }
                            o.sites += 1;
                        }
                        2 => {
                            let j = rng.below(per);
                            let (i, x) = (j * threads + t, o.own[j]);
                            k += 1;
                            let v = uniq(t, k);
                            let old = op("replace", || vec[i].replace(Tok::new(v))).val();
                            check!(old == x, "{}: element {i} held {old:x} instead of {x:x}, which its only writer put there", P::NAME);
                            o.own[j] = v;
                        }
                        _ => {
                            // traversal over everybody's elements, ended by a panic
                            let at = rng.below(vec.len() + 1);
                            let c = Cell::new(0);
                            let f = |x: &Tok| {
                                if c.get() == at {
                                    inject(5)
                                }
                                c.set(c.get() + 1);
                                x.val()
                            };
                            op("panicking traversal", || {
                                injected(|| match rng.below(3) {
                                    0 => vec.map(&f).fold(0, |a: u64, b| a ^ b),
                                    1 => vec.fold(0, |a: u64, x| a ^ f(x)),
                                    _ => vec.filter(|x| f(x) % 2 == 0).count() as u64,
                                })
                            });
                            o.sites += 1;
                        }
                    }
                }
                running.fetch_sub(1, Relaxed);
                o
            })
        })
        .collect();
    let outs = par(rng.next(), jobs);
    set_chaos(0);
    let w = format!("{} {threads} threads, {calls} calls each", P::NAME);
    // who gave which value
    let mut owner: HashMap<u64, (usize, usize)> = HashMap::new();
    let (mut must, mut total, mut lost) = (HashMap::new(), pre, 0);
    for (t, o) in outs.iter().enumerate() {
        for (j, v) in o.own.iter().enumerate() {
            must.insert(j * threads + t, *v);
        }
        for g in &o.grown {
            total += g.vals.len();
            for (k, v) in g.vals.iter().enumerate() {
                check!(must.insert(g.begin + k, *v).is_none(), "{w}: position {} was handed out twice", g.begin + k);
            }
        }
        for (f, (n, given, _)) in o.failed.iter().enumerate() {
            total += n;
            lost += n;
            for v in given {
                owner.insert(*v, (t, f));
            }
        }
    }
    check!(must.keys().all(|i| *i < total), "{w}: a position beyond {total} was handed out");
    let len = vec.len();
    let lo = (0..).find(|i| !must.contains_key(i)).unwrap_or(0);
    check!(len >= lo && len <= total, "{w}: the length is {len}, expected {lo}..={total}");
    let judge = |i: usize, x: Option<u64>, from: &str| match (x, must.get(&i)) {
        (Some(x), Some(v)) => check!(x == *v, "{w}: position {i} holds {x:x}, expected {v:x} ({from})"),
        (Some(x), None) => check!(owner.contains_key(&x), "{w}: position {i} holds {x:x}, which nobody gave ({from})"),
        _ => {}
    };
    for (i, x) in contents(&vec).iter().enumerate() {
        judge(i, Some(*x), "iter");
    }
    let mut absent = 0;
    for i in 0..total + 2 {
        let x = vec.get_cloned(i).map(|x| x.val());
        check!(x.is_some() || i >= len, "{w}: position {i} is absent, length {len}");
        absent += x.is_none() as usize;
        judge(i, x, "get_cloned");
    }
    // nothing is locked
    op("probe", || {
        for i in 0..len {
            vec[i].update(|x| x.check("probe"));
        }
    });
    let p = panics(|| vec.into_inner());
    if let Some(p) = p {
        let mut seen = HashMap::new();
        let mut unwritten = 0;
        for i in 0..p.len() {
            let x = p.get(i).and_then(|e| panics(|| e.map(|x| x.val())));
            judge(i, x, "into_inner");
            match x {
                Some(x) => {
                    if let Some(j) = seen.insert(x, i) {
                        violation(format!("{w}: value {x:x} is at {j} and at {i}"));
                    }
                }
                None => {
                    check!(!must.contains_key(&i), "{w}: position {i} is not written although its call returned");
                    unwritten += 1;
                }
            }
            check!(x.is_some() || i >= len, "{w}: position {i} below the length is not written");
        }
        check!(unwritten <= lost, "{w}: {unwritten} positions are not written, {lost} were lost by panics");
        // the given values of a panicked call are next to each other
        for o in &outs {
            for (_, given, told) in &o.failed {
                let at: Vec<_> = given.iter().filter_map(|v| seen.get(v)).collect();
                check!(at.windows(2).all(|a| *a[0] + 1 == *a[1]), "{w}: values {given:x?} of one call are at {at:?}");
                if let (Some(told), Some(at)) = (told, at.first()) {
                    check!(told == *at, "{w}: a call was told position {told} and its value is at {at}");
                }
            }
        }
    }
    let sites: u64 = outs.iter().map(|o| o.sites).sum();
    let failed: u64 = outs.iter().map(|o| o.failed.len() as u64).sum();
    ctx.count("panics_in_storms", sites + failed);
    ctx.count("positions_lost_in_storms", lost as u64);
    let all: Vec<Grown> = outs.into_iter().flat_map(|o| o.grown).collect();
    let (h, switches) = interleaving(&all);
    if switches > 1 {
        ctx.sig(hash2(h, absent as u64));
    }
    ctx.sample(|| format!("{w}: {failed} growth calls and {sites} other calls panicked, {lost} positions were lost, length {len} of {total}"));
}
fn storm_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, storm, Tok, (ctx, rng));
}

fn main() {
    run(
        "C16",
        &[
            Scenario::new("each", 3, each_any).miri().seq(),
            Scenario::new("default_only", 1, default_only).miri().seq(),
            Scenario::new("storm", 5, storm_any).miri(),
            Scenario::new("gaps", 1, gaps_any).miri().seq(),
        ],
    );
}
