use mon::growth::*;
use mon::*;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

thread_local! {
    static PAIRS: RefCell<Vec<(u64, u64)>> = const { RefCell::new(vec![]) };
    static RULE: Cell<usize> = const { Cell::new(0) };
}

/// the equality of values is what the current rule says; neither symmetric nor reflexive in general
fn rule(k: usize, a: u64, b: u64) -> bool {
    match k {
        0 => a == b,
        1 => a <= b,
        // like NaN: some values do not equal anything
        2 => a == b && a % 5 != 0,
        3 => a % 7 != b % 3,
        4 => false,
        _ => true,
    }
}

/// owns heap memory; records in which order values are compared, and notices changes during a comparison
struct Cmp {
    w: [u64; 3],
    heap: Box<u64>,
}
impl Pay for Cmp {
    const NAME: &'static str = "compared";
    fn make(v: u64) -> Self {
        Cmp { w: [v, sum(v, 1), sum(v, 2)], heap: Box::new(sum(v, 3)) }
    }
    fn val(&self) -> u64 {
        let v = self.w[0];
        if self.w[1] != sum(v, 1) || self.w[2] != sum(v, 2) || *self.heap != sum(v, 3) {
            violation(format!("a corrupt, mixed or freed value was given: {:x?} {:x}", self.w, *self.heap));
        }
        v
    }
    fn put(&mut self, v: u64) {
        self.w[0] = v;
        chaos_point();
        self.w[1] = sum(v, 1);
        *self.heap = sum(v, 3);
        chaos_point();
        self.w[2] = sum(v, 2);
    }
}
impl Drop for Cmp {
    fn drop(&mut self) {
        self.val();
        *self.heap = !0;
        self.w[1] = 1;
    }
}
impl Clone for Cmp {
    fn clone(&self) -> Self {
        Cmp::make(self.val())
    }
}
impl Debug for Cmp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl PartialEq for Cmp {
    fn eq(&self, o: &Self) -> bool {
        let p = (self.val(), o.val());
        chaos_point();
        let q = (self.val(), o.val());
        check!(p == q, "values change while they are compared: {p:x?} became {q:x?}");
        PAIRS.with(|s| s.borrow_mut().push(p));
        rule(RULE.with(|r| r.get()), p.0, p.1)
    }
}
fn pairs<R>(k: usize, f: impl FnOnce() -> R) -> (R, Vec<(u64, u64)>) {
    PAIRS.with(|s| s.borrow_mut().clear());
    RULE.with(|r| r.set(k));
    let r = f();
    (r, PAIRS.with(|s| std::mem::take(&mut *s.borrow_mut())))
}

// ---------------------------------------------------------------- quiescent

/// equal iff lengths and all pairs are equal; pairs are compared in the given argument order
fn judge(ctx: &mut Ctx, w: &dyn Fn() -> String, k: usize, a: &[u64], b: &[u64], f: impl Fn() -> bool, ne: impl Fn() -> bool) {
    let e = a.len() == b.len() && a.iter().zip(b).all(|(x, y)| rule(k, *x, *y));
    let (r, seen) = pairs(k, &f);
    check!(r == e, "{}: == gives {r} with {} and {} elements", w(), a.len(), b.len());
    let n = a.len().min(b.len());
    for p in &seen {
        check!((0..n).any(|i| (a[i], b[i]) == *p), "{}: the values {p:x?} were compared in this order, which are not at the same position", w());
    }
    if r {
        check!((0..n).all(|i| seen.contains(&(a[i], b[i]))), "{}: equal although not all of the {n} pairs were compared", w());
    }
    let (r, _) = pairs(k, &ne);
    check!(r != e, "{}: != gives {r} with {} and {} elements", w(), a.len(), b.len());
    ctx.count("comparisons", 2);
    ctx.eval(2);
}

fn operands(ctx: &mut Ctx, rng: &mut Rng) {
    let n = match rng.below(4) {
        0 => rng.below(3),
        1 => rng.below(8),
        2 => { let n = ctx.size(60, 30, 4); let n = ctx.rare(rng, n, 4000); rng.skewed(n) }
        _ => rng.skewed(ctx.size(60, 30, 4)),
    };
    let small = rng.chance(1, 2);
    let gen = |rng: &mut Rng| if small { rng.below(4) as u64 } else { rng.next() >> 4 };
    let a: Vec<u64> = (0..n).map(|_| gen(rng)).collect();
    // equal, or nearly so
    let mut b = a.clone();
    match rng.below(6) {
        0 | 1 => {}
        2 if n > 0 => b[rng.below(n)] = gen(rng),
        3 => b.truncate(rng.below(n + 1)),
        4 => b.push(gen(rng)),
        5 if n > 0 => b[n - 1] = gen(rng),
        _ => b = (0..n).map(|_| gen(rng)).collect(),
    }
    let va: ConcurrentVec<Cmp> = a.iter().map(|v| Cmp::make(*v)).collect();
    let vb: ConcurrentVec<Cmp> = b.iter().map(|v| Cmp::make(*v)).collect();
    let k = rng.below(6);
    let mk = |x: &[u64]| x.iter().map(|v| Cmp::make(*v)).collect::<Vec<Cmp>>();
    let w = |x: &str| format!("{x} under rule {k}");
    macro_rules! cmp {
        ($name:expr, $a:expr, $b:expr, $x:expr, $y:expr) => {
            judge(ctx, &|| w($name), k, $a, $b, || $x == $y, || $x != $y)
        };
    }
    let win = |rng: &mut Rng, n: usize| {
        let (x, y) = (rng.below(n + 1), rng.below(n + 1));
        (x.min(y), x.max(y))
    };
    cmp!("vec == vec", &a, &b, va, vb);
    cmp!("vec == vec (reversed)", &b, &a, vb, va);
    cmp!("vec == itself", &a, &a, va, va);
    cmp!("vec == [T]", &a, &b, va, mk(&b)[..]);
    cmp!("as_slice == vec", &a, &b, va.as_slice(), vb);
    cmp!("vec == as_slice", &a, &b, va, vb.as_slice());
    cmp!("vec == its slice", &a, &a, va, va.as_slice());
    cmp!("its slice == vec", &a, &a, va.as_slice(), va);
    for _ in 0..if MIRI { 1 } else { 3 } {
        // windows of the same length with another offset, overlapping or not, and others
        let (p, q) = win(rng, n);
        let (r, s) = match rng.below(3) {
            0 => win(rng, b.len()),
            _ => {
                let l = (q - p).min(b.len());
                let r = rng.below(b.len() - l + 1);
                (r, r + l)
            }
        };
        let (s1, s2) = (va.slice(p..q), vb.slice(r..s));
        cmp!("slice == slice", &a[p..q], &b[r..s], s1, s2);
        cmp!("slice == vec", &a[p..q], &b, s1, vb);
        cmp!("vec == slice", &a, &b[r..s], va, s2);
        cmp!("slice == [T]", &a[p..q], &b[r..s], s1, mk(&b[r..s])[..]);
        let l = (q - p).min(n);
        let t = rng.below(n - l + 1);
        let s3 = va.slice(t..t + l);
        cmp!("slice == overlapping slice of the same vec", &a[p..q], &a[t..t + l], s1, s3);
        cmp!("slice == itself", &a[p..q], &a[p..q], s1, s1);
        let nested = s1.slice(l / 2..);
        cmp!("slice of slice == slice", &a[p + l / 2..q], &a[t..t + l], nested, s3);
        ctx.count("overlapping_windows", (p < t + l && t < q && p != t) as u64);
    }
    macro_rules! arr {
        ($($n:literal),*) => {$(
            if b.len() >= $n {
                let x = &b[b.len() - $n..];
                let mut it = mk(x).into_iter();
                let y: [Cmp; $n] = std::array::from_fn(|_| it.next().unwrap_or_else(|| Cmp::make(0)));
                cmp!("vec == [T; N]", &a, x, va, y);
                let m = $n.min(n);
                let s = va.slice(n - m..);
                cmp!("slice == [T; N]", &a[n - m..], x, s, y);
                if $n != 1 {
                    let s = va.slice(..n.min($n - 1));
                    cmp!("slice == [T; N]", &a[..n.min($n - 1)], x, s, y);
                }
            }
        )*};
    }
    arr!(1, 2, 3, 4, 5, 8, 13);
    let none: [Cmp; 0] = [];
    cmp!("vec == []", &a, &[], va, none);
    for _ in 0..3.min(n.min(b.len())) {
        let (i, j, l) = (rng.below(n), rng.below(b.len()), rng.below(n));
        cmp!("element == element", &a[i..i + 1], &b[j..j + 1], va[i], vb[j]);
        cmp!("element == element of the same vec", &a[i..i + 1], &a[l..l + 1], va[i], va[l]);
        cmp!("element == itself", &a[i..i + 1], &a[i..i + 1], va[i], va[i]);
        cmp!("element == T", &a[i..i + 1], &b[j..j + 1], va[i], mk(&b[j..j + 1])[0]);
    }
    ctx.sig(hash2(hash2(n as u64, b.len() as u64), hash2(k as u64, a.iter().zip(&b).filter(|(x, y)| x == y).count() as u64)));
    ctx.sample(|| format!("all operand types with {n} and {} elements under rule {k}", b.len()));
}

/// ordinary types
fn floats(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.below(12);
    let g = |rng: &mut Rng| *rng.pick(&[0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, -1.0]);
    let a: Vec<f64> = (0..n).map(|_| if rng.chance(1, 3) { g(rng) } else { 2.0 }).collect();
    let mut b = a.clone();
    if n > 0 && rng.bool() {
        let i = rng.below(n);
        b[i] = g(rng);
    }
    let (va, vb): (ConcurrentVec<f64>, ConcurrentVec<f64>) = (a.iter().copied().collect(), b.iter().copied().collect());
    #[allow(clippy::eq_op)]
    let e = [a == b, a == a, a[n / 2..] == b[n / 2..]];
    #[allow(clippy::eq_op)]
    let r = [va == vb, va == va, va.slice(n / 2..) == vb.slice(n / 2..)];
    check!(e == r, "comparisons of {a:?} and {b:?} give {r:?} instead of {e:?}");
    check!((va == b[..]) == e[0] && (va.as_slice() == vb) == e[0] && (vb == va.as_slice()) == (b == a), "comparisons of {a:?} and {b:?} depend on the type of the operands");
    for i in 0..n {
        #[allow(clippy::eq_op)]
        let x = va[i] == va[i];
        check!(x == (a[i] == a[i]) && (va[i] == vb[i]) == (a[i] == b[i]) && (va[i] == b[i]) == (a[i] == b[i]), "elements {} and {} are compared wrongly", a[i], b[i]);
    }
    let s = |x: &[f64]| x.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>();
    let (sa, sb) = (s(&a), s(&b));
    let (va, vb): (ConcurrentVec<String>, ConcurrentVec<String>) = (sa.iter().cloned().collect(), sb.iter().cloned().collect());
    check!((va == vb) == (sa == sb) && (va == sb[..]) == (sa == sb), "comparisons of {sa:?} and {sb:?} are wrong");
    ctx.count("comparisons", 8 + 3 * n as u64);
    ctx.sig(hash2(n as u64, (e[0] as u64) * 4 + (e[1] as u64) * 2 + e[2] as u64));
}

// ---------------------------------------------------------------- concurrent

const POS: u64 = 32;

/// Pairs (i, n + i) whose versions are advanced alternately: at any time the first one is ahead by at most one.
/// A pair that is compared atomically is seen in such a state only.
fn lockstep(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(1, ctx.size(8, 5, 2));
    let writers = rng.range(1, ctx.size(3, 2, 1)).min(n);
    let comparers = rng.range(1, ctx.size(4, 2, 1));
    let rounds = rng.range(5, ctx.size(300, 120, 8)) as u64;
    let one: ConcurrentVec<Cmp> = (0..2 * n as u64).map(|i| Cmp::make(i << POS)).collect();
    let other: ConcurrentVec<Cmp> = (n as u64..2 * n as u64).map(|i| Cmp::make(i << POS)).collect();
    // the second halves live in the same vec or in another one
    let same = rng.bool();
    let (va, vb, off) = match same {
        true => (&one, &one, n),
        false => (&one, &other, 0),
    };
    set_chaos(*rng.pick(&[0, 30, 100]));
    let started: Vec<AtomicU64> = (0..2 * n).map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicU64> = (0..2 * n).map(|_| AtomicU64::new(0)).collect();
    let running = AtomicUsize::new(writers);
    let mut jobs: Vec<Job<[u64; 3]>> = vec![];
    for t in 0..writers {
        let (running, started, done) = (&running, &started, &done);
        let mut rng = rng.fork(t as u64);
        jobs.push(job!(move |_| {
            for k in 1..=rounds {
                for i in (t..n).step_by(writers) {
                    for p in [i, n + i] {
                        let v = (p as u64) << POS | k;
                        let e = if p < n { &va[p] } else { &vb[p - n + off] };
                        started[p].store(k, SeqCst);
                        op("write", || match rng.below(4) {
                            0 => e.set(Cmp::make(v)),
                            1 => e.update(|x| x.put(v)),
                            2 => e.update(|x| *x = Cmp::make(v)),
                            _ => drop(e.replace(Cmp::make(v))),
                        });
                        done[p].store(k, SeqCst);
                    }
                }
            }
            running.fetch_sub(1, Relaxed);
            [0u64; 3]
        }));
    }
    for c in 0..comparers {
        let (running, started, done) = (&running, &started, &done);
        let mut rng = rng.fork(40 + c as u64);
        jobs.push(job!(move |_| {
            let mut out = [0u64; 3];
            let mut end = false;
            while !end && (!MIRI || out[0] < 10) {
                end = running.load(Relaxed) == 0;
                let i = rng.below(n);
                let l = rng.range(1, n - i);
                let lo: Vec<u64> = done.iter().map(|x| x.load(SeqCst)).collect();
                // (window length, first operand is the first half)
                let kind = rng.below(7);
                let rev = rng.bool();
                let (s1, s2) = (va.slice(i..i + l), vb.slice(off + i..off + i + l));
                let (e1, e2) = (&va[i], &vb[off + i]);
                let (_, seen) = pairs(5, || {
                    op("==", || match (kind, rev) {
                        (0..=2, false) => *e1 == *e2,
                        (0..=2, true) => *e2 == *e1,
                        (3..=5, false) => s1 == s2,
                        (3..=5, true) => s2 == s1,
                        (_, false) => va.slice(..n) == vb.slice(off..),
                        (_, true) => vb.slice(off..) == va.slice(..n),
                    })
                });
                let (b, cnt) = match kind {
                    0..=2 => (i, 1),
                    3..=5 => (i, l),
                    _ => (0, n),
                };
                let w = || format!("{} == {} ({kind}) in {} vec", if rev { "second" } else { "first" }, if rev { "first" } else { "second" }, if same { "one" } else { "another" });
                check!(seen.len() >= cnt, "{}: equal, but only {} of {cnt} pairs were compared", w(), seen.len());
                for (x, y) in seen {
                    let (f, s) = if rev { (y, x) } else { (x, y) };
                    let (pf, ps) = ((f >> POS) as usize, (s >> POS) as usize);
                    check!(pf + n == ps && (b..b + cnt).contains(&pf), "{}: values of positions {pf} and {ps} are compared in this order", w());
                    let (kf, ks) = (f & 0xffff_ffff, s & 0xffff_ffff);
                    check!(kf == ks || kf == ks + 1, "{}: version {kf} is compared with version {ks} of the pair {pf}, they were never there at the same time", w());
                    for (p, k) in [(pf, kf), (ps, ks)] {
                        let max = started[p].load(SeqCst);
                        check!(lo[p] <= k && k <= max, "{}: version {k} of {p} is compared, but {} was complete before and {max} the last one begun", w(), lo[p]);
                        out[2] += (max > lo[p]) as u64;
                    }
                    out[1] += 1;
                }
                out[0] += 1;
            }
            out
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let s = r.iter().fold([0u64; 3], |a, b| [a[0] + b[0], a[1] + b[1], a[2] + b[2]]);
    ctx.count("concurrent_comparisons", s[0]);
    ctx.count("pairs_verified", s[1]);
    ctx.count("pairs_written_meanwhile", s[2]);
    ctx.sig(hash2(hash2(n as u64, same as u64), hash2(s[0], s[2])));
    ctx.sample(|| format!("{n} pairs in {} vec, {} comparisons of {} pairs, {} values were written meanwhile", if same { "one" } else { "two" }, s[0], s[1], s[2]));
}

/// comparisons in all orders and overlaps together with swaps, updates and growth: everything completes,
/// no value is seen twice at a time and the result is consistent with what was compared
fn storm<T: Pay>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let n = rng.range(2, ctx.size(10, 6, 4));
    let threads = rng.range(2, ctx.size(7, 4, 3));
    let steps = rng.range(5, ctx.size(300, 100, 8));
    // only permuted, or updated as well
    let permute = rng.bool();
    let vec: ConcurrentVec<T> = (0..n as u64).map(T::make).collect();
    let other: ConcurrentVec<T> = (0..n as u64).map(T::make).collect();
    set_chaos(*rng.pick(&[0, 40, 140]));
    let mut jobs: Vec<Job<(u64, u64, u64)>> = vec![];
    for t in 0..threads {
        let (vec, other) = (&vec, &other);
        let mut rng = rng.fork(t as u64);
        jobs.push(job!(move |_| {
            tok_chaos(true);
            let (mut cmp, mut sig, mut k) = (0u64, 0u64, 0u64);
            for _ in 0..steps {
                let (i, j) = (rng.below(n), rng.below(n));
                let (a, b) = (i.min(j), i.max(j) + 1);
                let l = b - a;
                let c = rng.below(n - l + 1);
                let what = rng.below(20);
                sig = hash2(sig, what as u64 * 64 + i as u64 * 8 + j as u64);
                k += 1;
                let v = ((t as u64 + 1) << 40) | k;
                let r = op("comparison storm", || match what {
                    0 => Some(*vec == *other),
                    1 => Some(*other == *vec),
                    2 => Some(*vec == *vec),
                    3 => Some(vec.slice(a..b) == vec.slice(c..c + l)),
                    4 => Some(vec.slice(c..c + l) == vec.slice(a..b)),
                    5 => Some(vec.slice(a..b) == other.slice(c..c + l)),
                    6 => Some(other.slice(c..c + l) == vec.slice(a..b)),
                    7 => Some(vec[i] == vec[j]),
                    8 => Some(vec[j] == vec[i]),
                    9 => Some(vec[i] == other[j]),
                    10 => Some(other[j] == vec[i]),
                    11 => Some(vec[i] == vec[i]),
                    12 => Some(vec.slice(a..b) == [(); 2].map(|_| T::make(i as u64))),
                    13 => Some(*vec == vec.slice(a..)),
                    14 => Some(vec.as_slice() == *other),
                    15 | 16 => {
                        vec.swap(i, j);
                        None
                    }
                    17 => {
                        other.slice(a..b).swap(0, l - 1);
                        None
                    }
                    18 if !permute => {
                        vec[i].set(T::make(v));
                        None
                    }
                    19 if !permute => {
                        other[i].update(|x| x.put(v));
                        None
                    }
                    _ => {
                        vec.swap(j, i);
                        None
                    }
                });
                if let Some(r) = r {
                    cmp += 1;
                    if permute {
                        // all values of a vec are different at any time
                        match what {
                            7 | 8 => check!(r == (i == j), "elements {i} and {j} of a vec of different values are compared as {r}"),
                            11 => check!(r, "an element does not equal itself"),
                            2 => check!(r, "a vec does not equal itself"),
                            3 | 4 if a == c => check!(r, "a slice does not equal itself"),
                            3 | 4 => check!(!r || l > 1, "slices {a}..{b} and {c}.. of a vec of different values are compared as {r}"),
                            13 if a > 0 => check!(!r, "a vec of {n} elements equals a slice of {}", n - a),
                            _ => {}
                        }
                    }
                }
            }
            tok_chaos(false);
            (cmp, sig, 0u64)
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    if permute {
        for v in [&vec, &other] {
            let mut c = contents(v);
            c.sort();
            check!(c == (0..n as u64).collect::<Vec<_>>(), "swaps together with comparisons changed the values to {c:?}");
        }
    }
    let cmp = r.iter().map(|x| x.0).sum();
    ctx.count("storm_comparisons", cmp);
    ctx.sig(r.iter().fold(n as u64, |h, x| hash2(h, x.1)));
    ctx.sample(|| format!("{threads} threads with {steps} steps on {n} {} elements, {cmp} comparisons", T::NAME));
    drop((vec, other));
    check!(tok_live() == 0 || T::NAME != "token", "{} values are alive after everything was dropped", tok_live());
}
fn storm_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(3) {
        0 => storm::<u64>(ctx, rng),
        1 => storm::<String>(ctx, rng),
        _ => storm::<Tok>(ctx, rng),
    }
}

/// operations which need an element that another thread holds at that moment
fn held(ctx: &mut Ctx, rng: &mut Rng) {
    busy_any(ctx, rng, &busy::EQS);
}

/// values without size: `==` says what it is told to say at each call
struct Sizeless;
thread_local! {
    static ANSWERS: RefCell<(Vec<bool>, usize)> = const { RefCell::new((vec![], 0)) };
}
impl PartialEq for Sizeless {
    fn eq(&self, _: &Sizeless) -> bool {
        ANSWERS.with(|a| {
            let mut a = a.borrow_mut();
            a.1 += 1;
            let k = a.1 - 1;
            a.0.get(k).copied().unwrap_or(true)
        })
    }
}
fn sizeless(ctx: &mut Ctx, rng: &mut Rng) {
    let make = |n: usize| (0..n).map(|_| Sizeless).collect::<ConcurrentVec<Sizeless>>();
    let n = rng.below(ctx.size(40, 20, 6));
    let m = if rng.bool() { n } else { rng.below(ctx.size(40, 20, 6)) };
    let (lead, tail) = (rng.below(4), rng.below(4));
    let (a, b, inner) = (make(n), make(m), make(lead + m + tail));
    let list: Vec<Sizeless> = (0..m).map(|_| Sizeless).collect();
    let four = [Sizeless, Sizeless, Sizeless, Sizeless];
    for _ in 0..8 {
        // which comparison of a pair says that it differs, if any
        let no = if rng.bool() { rng.below(n.max(1)) } else { usize::MAX };
        let answers: Vec<bool> = (0..n.max(4)).map(|k| k != no).collect();
        let all = |k: usize| answers[..k].iter().all(|x| *x);
        let kind = rng.below(10);
        let (s, t) = (a.slice(..), inner.slice(lead..lead + m));
        ANSWERS.with(|x| *x.borrow_mut() = (answers.clone(), 0));
        let (r, want) = match kind {
            0 => (a == b, n == m && all(n)),
            1 => (a == t, n == m && all(n)),
            2 => (s == b, n == m && all(n)),
            3 => (s == t, n == m && all(n)),
            4 => (a == list[..], n == m && all(n)),
            5 => (s == list[..], n == m && all(n)),
            6 => (a == four, n == 4 && all(4)),
            7 => (s == four, n == 4 && all(4)),
            8 if n > 0 => (a[n - 1] == a[rng.below(n)], answers[0]),
            9 if n > 0 => (a[n - 1] == Sizeless, answers[0]),
            _ => (a == a, all(n)),
        };
        check!(r == want, "{n} and {m} values without size, the comparison of pair {no} says no: == (of kind {kind}) is {r} instead of {want}");
        let first = rng.below(n.max(1));
        ANSWERS.with(|x| *x.borrow_mut() = ((0..first).map(|_| false).collect(), 0));
        let r = if rng.bool() { a.index_of(&Sizeless) } else { s.index_of(&Sizeless) };
        let want = (first < n).then_some(first);
        check!(r == want, "{n} values without size of which {first} do not equal the one sought: index_of is {r:?} instead of {want:?}");
    }
    ctx.count("comparisons_of_sizeless", 16);
    ctx.sig(hash2(n as u64, hash2(m as u64, lead as u64)));
}

fn main() {
    run(
        "C22",
        &[
            Scenario::new("operands", 2, operands).miri().seq(),
            Scenario::new("floats", 1, floats).miri().seq(),
            Scenario::new("sizeless", 1, sizeless).miri().seq(),
            Scenario::new("lockstep", 4, lockstep).miri(),
            Scenario::new("storm", 4, storm_any).miri(),
            Scenario::new("held", 1, held).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C22")).seq(),
        ],
    );
}
