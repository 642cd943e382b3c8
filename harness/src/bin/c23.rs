//! Callbacks which use the vec themselves.
use mon::growth::*;
use mon::*;
use std::any::Any;
use std::cell::{Cell, RefCell};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// an iterable and iterator whose conversion and length are callbacks as well
struct Hooked<I, F> {
    it: I,
    hook: F,
}
struct HookedIter<I, F>(I, F);
impl<I: Iterator, F: Fn()> IntoIterator for Hooked<I, F> {
    type Item = I::Item;
    type IntoIter = HookedIter<I, F>;
    fn into_iter(self) -> HookedIter<I, F> {
        (self.hook)();
        HookedIter(self.it, self.hook)
    }
}
impl<I: Iterator, F: Fn()> Iterator for HookedIter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<I: ExactSizeIterator, F: Fn()> ExactSizeIterator for HookedIter<I, F> {
    fn len(&self) -> usize {
        (self.1)();
        self.0.len()
    }
}

/// a thread with a window of elements for its own
struct Own<'a, P: Store<Tok>> {
    vec: &'a ConcurrentVec<Tok, P>,
    id: usize,
    lo: usize,
    hi: usize,
    alone: bool,
    model: RefCell<Vec<u64>>,
    grown: RefCell<Vec<Grown>>,
    rng: RefCell<Rng>,
    /// positions that may still be added
    budget: Cell<usize>,
    /// calls that may still be made
    left: Cell<usize>,
    k: Cell<u64>,
    max_depth: usize,
    batch: usize,
    nested: Cell<u64>,
    nested_growth: Cell<u64>,
    deep: Cell<u64>,
    kinds: Cell<u64>,
    sig: Cell<u64>,
}

impl<P: Store<Tok> + 'static> Own<'_, P> {
    fn r(&self, n: usize) -> usize {
        self.rng.borrow_mut().below(n.max(1))
    }
    fn next(&self) -> u64 {
        self.k.set(self.k.get() + 1);
        uniq(self.id, self.k.get())
    }
    fn at(&self, i: usize) -> u64 {
        self.model.borrow()[i - self.lo]
    }
    fn put(&self, i: usize, v: u64) {
        self.model.borrow_mut()[i - self.lo] = v;
    }
    fn free(&self, held: &[usize]) -> Option<usize> {
        (0..8).map(|_| self.lo + self.r(self.hi - self.lo)).find(|i| !held.contains(i) && *i < self.hi)
    }
    /// a window without held elements
    fn window(&self, held: &[usize]) -> (usize, usize) {
        let a = self.lo + self.r(self.hi - self.lo + 1);
        let n = self.r(6);
        let mut b = a;
        while b < self.hi && b - a < n && !held.contains(&b) {
            b += 1;
        }
        (a, b)
    }
    /// user code that is called while the elements `held` are in use
    fn inner(&self, held: &[usize], more: &[usize], depth: usize) {
        if depth > self.max_depth {
            return;
        }
        let all: Vec<usize> = held.iter().chain(more).copied().collect();
        user(|| {
            for _ in 0..[0, 0, 1, 1, 2][self.r(5)] {
                self.nested.set(self.nested.get() + 1);
                if depth > 1 {
                    self.deep.set(self.deep.get() + 1);
                }
                self.one(&all, depth);
            }
        })
    }
    fn eq(&self, what: &str, i: usize, x: u64) {
        let want = self.at(i);
        check!(x == want, "{}: {what} of {i} gave {x:x} instead of {want:x}", P::NAME);
    }

    fn grow(&self, held: &[usize], depth: usize) {
        let vec = self.vec;
        let kind = self.r(5);
        let n = if kind < 2 { 1 } else { self.r(self.batch + 1) };
        if self.budget.get() < n {
            return;
        }
        self.budget.set(self.budget.get() - n);
        if depth > 0 {
            self.nested_growth.set(self.nested_growth.get() + 1);
        }
        let vals: Vec<u64> = (0..n).map(|_| self.next()).collect();
        let told = Cell::new(usize::MAX);
        let item = |v: u64| {
            self.inner(held, &[], depth + 1);
            Tok::new(v)
        };
        // calls made by the closure get later positions
        let tell = |i: usize| {
            told.set(i);
            let before = self.grown.borrow().len();
            check!(n == 0 || op("get", || vec.get(i)).is_none(), "{}: position {i} is there before its value is made", P::NAME);
            self.inner(held, &[], depth + 1);
            for g in &self.grown.borrow()[before..] {
                check!(n == 0 || g.begin > i || g.vals.is_empty(), "{}: {} in a closure for position {i} got {}", P::NAME, g.kind, g.begin);
            }
        };
        let it = || Hooked { it: ExactIter { it: vals.iter().map(|v| item(*v)), n }, hook: || self.inner(held, &[], depth + 1) };
        let inv = now();
        let begin = op(KINDS[kind], || match kind {
            0 => {
                let v = Tok::new(vals[0]);
                vec.push(v)
            }
            1 => vec.push_for_idx(|i| {
                tell(i);
                Tok::new(vals[0])
            }),
            2 => vec.extend(it()),
            3 => vec.extend_for_idx(
                |i| {
                    tell(i);
                    it()
                },
                n,
            ),
            _ => vec.extend_n_items(it(), n),
        });
        let ret = now();
        check!(begin >= self.hi, "{}: {} returned {begin}, which was in use", P::NAME, KINDS[kind]);
        if told.get() != usize::MAX {
            check!(told.get() == begin, "{}: {} told position {} but returned {begin}", P::NAME, KINDS[kind], told.get());
        }
        self.grown.borrow_mut().push(Grown { thread: self.id * 1000 + depth, kind: KINDS[kind], inv, ret, begin, vals, born: vec![0; n] });
    }

    /// an operation which needs none of the held elements
    fn one(&self, held: &[usize], depth: usize) {
        if self.left.get() == 0 {
            return;
        }
        self.left.set(self.left.get() - 1);
        let vec = self.vec;
        let kind = self.r(30);
        self.kinds.set(self.kinds.get() | 1 << kind);
        self.sig.set(hash2(self.sig.get(), (kind * 8 + depth) as u64));
        let d = depth + 1;
        if kind < 7 {
            return self.grow(held, depth);
        }
        let (Some(t), Some(o)) = (self.free(held), self.free(held)) else { return };
        let (a, b) = self.window(held);
        let e = op("get", || vec.get(t));
        let Some(e) = e else { violation(format!("{}: get({t}) is None inside of a callback", P::NAME)) };
        let s = || op("slice", || vec.slice(a..b));
        // what a traversal of a..b saw when it was at each of the elements
        let seen = RefCell::new(vec![]);
        let visit = |i: usize, x: u64, what: &str| {
            check!(i < b, "{}: {what} of {a}..{b} visits too many elements", P::NAME);
            self.eq(what, i, x);
            seen.borrow_mut().push(x);
            self.inner(held, &[i], d);
            self.eq(what, i, x);
        };
        let pos = || a + seen.borrow().len();
        let all = |what: &str| {
            let n = seen.borrow().len();
            check!(n == b - a, "{}: {what} visited {n} elements of {a}..{b}", P::NAME);
        };
        let window: Vec<usize> = (a..b).collect();
        let now_there = || (a..b).map(|i| self.at(i)).collect::<Vec<u64>>();
        match kind {
            7 => {
                let x = op("map", || {
                    e.map(|x| {
                        self.inner(held, &[t], d);
                        x.val()
                    })
                });
                self.eq("map", t, x);
            }
            8 | 9 => {
                let v = self.next();
                op("update", || {
                    e.update(|x| {
                        self.eq("update", t, x.val());
                        x.put(!v);
                        self.inner(held, &[t], d);
                        check!(x.val() == !v, "{}: the value changed during an update", P::NAME);
                        x.put(v);
                    })
                });
                self.put(t, v);
            }
            10 => {
                let v = self.next();
                let old = self.at(t);
                let tok = Tok::new(v);
                let mut dropped = 0;
                tok_hooked(
                    &mut |c, x| {
                        if c == Callback::Drop && x == old {
                            dropped += 1;
                            self.inner(held, &[t], d);
                        }
                    },
                    || op("set", || e.set(tok)),
                );
                check!(dropped == 1, "{}: set dropped the old value {dropped} times", P::NAME);
                self.put(t, v);
            }
            11 => {
                let v = self.next();
                let x = op("replace", || e.replace(Tok::new(v)));
                self.eq("replace", t, x.val());
                self.put(t, v);
            }
            12 | 13 => {
                let x = tok_hooked(&mut |_, _| self.inner(held, &[t], d), || {
                    op("cloned", || match kind {
                        12 => Some(e.cloned()),
                        _ => vec.get_cloned(t),
                    })
                });
                self.eq("cloned", t, x.map_or(u64::MAX, |x| x.val()));
            }
            14 => {
                let x = tok_hooked(&mut |_, _| self.inner(held, &[t], d), || op("Debug", || format!("{e:?}")));
                let want = format!("{}", self.at(t));
                check!(x == want, "{}: Debug of {t} gave {x} instead of {want}", P::NAME);
            }
            15 | 16 => {
                let r = tok_hooked(&mut |_, _| self.inner(held, &[t, o], d), || op("==", || *e == vec[o]));
                check!(r == (self.at(t) == self.at(o)), "{}: {t} == {o} is {r}", P::NAME);
                let v = Tok::new(self.at(t));
                let r = tok_hooked(&mut |_, _| self.inner(held, &[t], d), || op("==", || *e == v));
                check!(r, "{}: {t} does not equal its value", P::NAME);
            }
            17 => {
                let ok = match t.min(o) >= a && t.max(o) < b {
                    true => op("swap", || s().swap(t - a, o - a)),
                    false => op("swap", || vec.swap(t, o)),
                };
                check!(ok, "{}: swap({t}, {o}) returned false inside of a callback", P::NAME);
                let (x, y) = (self.at(t), self.at(o));
                self.put(t, y);
                self.put(o, x);
            }
            18 => {
                let s = s();
                op("fold", || s.fold((), |_, x| visit(pos(), x.val(), "fold")));
                all("fold");
            }
            19 => {
                let s = s();
                op("map", || s.map(|x| visit(pos(), x.val(), "map")).for_each(|_| self.inner(held, &[], d)));
                all("map");
            }
            20 => {
                let s = s();
                let n = op("filter", || {
                    s.filter(|x| {
                        visit(pos(), x.val(), "filter");
                        x.val() % 2 == 0
                    })
                    .map(|e| {
                        self.inner(held, &[], d);
                        core::ptr::from_ref(e)
                    })
                    .collect::<Vec<_>>()
                });
                all("filter");
                let seen = seen.borrow();
                let want: Vec<_> = (0..seen.len()).filter(|i| seen[*i] % 2 == 0).map(|i| core::ptr::from_ref(&vec[a + i])).collect();
                check!(n == want, "{}: filter of {a}..{b} yields other elements", P::NAME);
            }
            21 => {
                let s = s();
                let c: Vec<u64> = tok_hooked(&mut |_, _| self.inner(held, &window, d), || op("clone_to_vec", || s.clone_to_vec())).iter().map(|x| x.val()).collect();
                check!(c == now_there(), "{}: clone_to_vec of {a}..{b} gave {c:x?} instead of {:x?}", P::NAME, now_there());
            }
            22 => {
                let s = s();
                let c: Vec<u64> = tok_hooked(&mut |_, _| self.inner(held, &window, d), || op("iter_cloned", || s.iter_cloned().map(|x| x.val()).collect()));
                check!(c == now_there(), "{}: iter_cloned of {a}..{b} gave {c:x?} instead of {:x?}", P::NAME, now_there());
            }
            23 => {
                let s = s();
                let none = Tok::new(self.next());
                let mut n = 0;
                let r = tok_hooked(
                    &mut |_, _| {
                        self.inner(held, &[a + n], d);
                        n += 1;
                    },
                    || op("index_of", || if t % 2 == 0 { s.index_of(&none) } else { s.contains(&none).then_some(0) }),
                );
                check!(r.is_none() && n == b - a, "{}: index_of of a value which is not there gave {r:?} in {a}..{b} after {n} comparisons", P::NAME);
            }
            24 => {
                let s = s();
                let x = tok_hooked(&mut |_, _| self.inner(held, &window, d), || op("Debug", || format!("{s:?}")));
                let n = now_there().iter().filter(|v| x.contains(&v.to_string())).count();
                check!(n == b - a, "{}: Debug of {a}..{b} gave {x} instead of {:?}", P::NAME, now_there());
            }
            25 => {
                let s = s();
                let v = self.next();
                let tok = Tok::new(v);
                let before: Vec<u64> = (a..b).map(|i| self.at(i)).collect();
                let mut n = 0;
                tok_hooked(
                    &mut |c, x| {
                        n += (c == Callback::Drop && before.contains(&x)) as usize;
                        self.inner(held, &window, d)
                    },
                    || op("fill", || s.fill(tok)),
                );
                check!(n == b - a, "{}: fill of {a}..{b} dropped {n} values", P::NAME);
                (a..b).for_each(|i| self.put(i, v));
            }
            26 => {
                let s = s();
                let mut calls = vec![];
                let vals: Vec<u64> = (a..b).map(|_| self.next()).collect();
                op("fill_with", || {
                    s.fill_with(|i| {
                        self.inner(held, &window, d);
                        calls.push(i);
                        Tok::new(vals[i])
                    })
                });
                check!(calls.iter().copied().eq(0..b - a), "{}: fill_with of {} elements called its closure for {calls:?}", P::NAME, b - a);
                (a..b).for_each(|i| self.put(i, vals[i - a]));
            }
            27 => {
                let s = s();
                let r = op("reduce", || {
                    s.reduce(|x, y| {
                        self.inner(held, &window, d);
                        Tok::new(x.val().wrapping_mul(31).wrapping_add(y.val()))
                    })
                });
                let want = (a..b).map(|i| self.at(i)).reduce(|x, y| x.wrapping_mul(31).wrapping_add(y));
                check!(r.as_ref().map(|x| x.val()) == want, "{}: reduce of {a}..{b} gave {:x?} instead of {want:x?}", P::NAME, r.map(|x| x.val()));
            }
            28 => {
                // two windows are compared
                let n = (b - a) / 2;
                let dbl = (vec as &dyn Any).downcast_ref::<ConcurrentVec<Tok>>();
                let Some(vec) = dbl else { return };
                let (s, u) = (vec.slice(a..a + n), vec.slice(b - n..b));
                let mut k = 0;
                let r = tok_hooked(
                    &mut |_, _| {
                        self.inner(held, &window, d);
                        k += 1;
                    },
                    || op("==", || s == u),
                );
                let want = (0..n).all(|i| self.at(a + i) == self.at(b - n + i));
                check!(r == want, "{}: {a}..{} == {}..{b} gave {r}", P::NAME, a + n, b - n);
            }
            _ => {
                let n = op("len", || vec.len());
                check!(n >= self.hi && vec.capacity() >= n && !vec.is_empty(), "{}: the length is {n} inside of a callback, {} elements were there before", P::NAME, self.hi);
                if self.alone && held.is_empty() {
                    // all of the vec, which grows meanwhile
                    let mut i = 0;
                    let mut f = |x: u64| {
                        if i < self.hi {
                            self.eq("traversal of the vec", i, x);
                        }
                        self.inner(held, &[i], d);
                        i += 1;
                    };
                    match t % 4 {
                        0 => op("vec fold", || vec.fold((), |_, x| f(x.val()))),
                        1 => op("vec map", || vec.map(|x| f(x.val())).for_each(|_| {})),
                        2 => op("vec iter", || vec.iter().for_each(|e| e.map(|x| f(x.val())))),
                        _ => op("vec iter_cloned", || vec.iter_cloned().for_each(|x| f(x.val()))),
                    }
                    check!(i == n, "{}: a traversal of the vec visits {i} elements, {n} were there when it began", P::NAME);
                }
            }
        }
    }
}

fn nested<P: Store<Tok> + 'static>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let threads = if rng.bool() { 1 } else { rng.range(2, ctx.size(5, 4, 2)) };
    let per = rng.range(2, ctx.size(14, 10, 5));
    let calls = ctx.size(200, 100, 14);
    let calls = rng.range(5, calls);
    let budget = rng.range(1, ctx.size(150, 80, 10));
    let batch = *rng.pick(&[1, 3, ctx.size(30, 15, 4)]);
    let max_depth = rng.range(1, 3);
    let need = threads * (per + budget);
    let vec = match rng.bool() {
        true => P::tight(rng, need).unwrap_or_else(|| P::build(rng, need)),
        false => P::build(rng, need),
    };
    let init = prefill(&vec, threads * per);
    set_chaos(if threads > 1 { *rng.pick(&[0, 30, 100]) } else { 0 });
    let (vecr, initr) = (&vec, &init);
    let mut jobs: Vec<Job<(Vec<u64>, Vec<Grown>, [u64; 5])>> = vec![];
    for w in 0..threads {
        let rng = rng.fork(w as u64);
        jobs.push(job!(move |_| {
            let (lo, hi) = (w * per, (w + 1) * per);
            let own = Own {
                vec: vecr,
                id: w,
                lo,
                hi,
                alone: threads == 1,
                model: RefCell::new(initr[lo..hi].to_vec()),
                grown: RefCell::new(vec![]),
                rng: RefCell::new(rng),
                budget: Cell::new(budget),
                left: Cell::new(calls),
                k: Cell::new(0),
                max_depth,
                batch,
                nested: Cell::new(0),
                nested_growth: Cell::new(0),
                deep: Cell::new(0),
                kinds: Cell::new(0),
                sig: Cell::new(0),
            };
            while own.left.get() > 0 {
                own.one(&[], 0);
            }
            let c = [own.nested.get(), own.nested_growth.get(), own.deep.get(), own.kinds.get(), own.sig.get()];
            (own.model.into_inner(), own.grown.into_inner(), c)
        }));
    }
    let outs = par(rng.next(), jobs);
    set_chaos(0);
    let what = format!("{} {threads} threads", P::NAME);
    let (mut fin, mut ops, mut h) = (vec![], vec![], hash_str(P::NAME));
    for (m, g, c) in outs {
        fin.extend(m);
        ops.extend(g);
        ctx.count("nested_calls", c[0]);
        ctx.count("nested_growths", c[1]);
        ctx.count("deeper_calls", c[2]);
        h = hash2(h, c[4]);
    }
    let c = contents(&vec);
    let n: usize = ops.iter().map(|g| g.vals.len()).sum();
    check!(vec.len() == fin.len() + n && c.len() == vec.len(), "{what}: the length is {} instead of {}", vec.len(), fin.len() + n);
    check_growth(&what, &c, &fin, &ops);
    if !MIRI {
        check_growth_order(&what, &ops);
    }
    let live = tok_live();
    check!(live == c.len() as i64, "{what}: {live} values are alive while the vec has {}", c.len());
    drop(vec);
    check!(tok_live() == 0, "{what}: {} values are alive after the drop of the vec", tok_live());
    ctx.sig(h);
    ctx.sample(|| format!("{what}: {n} positions added, depth up to {max_depth}"));
}
fn nested_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, nested, Tok, (ctx, rng));
}

fn main() {
    run("C23", &[Scenario::new("nested", 1, nested_any).miri()]);
}
