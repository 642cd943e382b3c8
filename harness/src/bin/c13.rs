use mon::growth::*;
use mon::seq::*;
use mon::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// the collection works like a vector holding `model`, now and after growing, and can be converted again
fn works<T: Pay, P: Store<T>>(vec: ConcurrentVec<T, P>, model: Vec<u64>, rng: &mut Rng, w: &str) -> Sut<T, P> {
    let mut s = Sut::over(rng, vec, model);
    s.next = 1 << 50;
    s.verify();
    queries(&s.vec, &s.model.clone(), rng, &|| w.to_string());
    let more = match rng.below(5) {
        0 => 0,
        1 if s.max < if MIRI { 40 } else { 3000 } => s.room(),
        _ => rng.below(if MIRI { 9 } else { 60 }).min(s.room()),
    };
    let target = s.model.len() + more;
    while s.model.len() < target {
        let left = target - s.model.len();
        let ops: &[usize] = if left > 200 { &[2, 3, 4] } else { &GROW };
        s.step(rng, ops, left);
        if rng.chance(1, 3) {
            s.step(rng, &UPDATE, 0);
        }
    }
    s.verify();
    s
}

/// chains of conversions between which the collection is used
fn chain<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let top = *rng.pick(&[0, 1, 4, 5, 13, if MIRI { 20 } else { 33 }, if MIRI { 9 } else { 90 }, ctx.size(600, 300, 12)]);
    let top = match rng.chance(1, 4) {
        true => ctx.rare(rng, top, 5000),
        false => top,
    };
    let mut s = match (rng.below(3), P::tight(rng, top + 2)) {
        (0, Some(v)) => Sut::<T, P>::over(rng, v, vec![]),
        _ => Sut::<T, P>::new(rng, top + 2),
    };
    let mut h = hash2(hash_str(P::NAME), top as u64);
    while s.model.len() < top {
        s.step(rng, &GROW, (top - s.model.len()).min(50));
        if rng.chance(1, 2) {
            s.step(rng, &UPDATE, 0);
        }
    }
    let mut path = String::new();
    for _ in 0..rng.range(1, ctx.size(5, 4, 2)) {
        let w = format!("{} {} of {} elements, conversions {path}", P::NAME, T::NAME, s.model.len());
        let Sut { vec, model, max, .. } = s;
        let n = model.len();
        let k = rng.below(8);
        h = hash2(h, k as u64);
        match k {
            0..=2 => {
                path += " into_inner";
                let p = vec.into_inner();
                check!(p.len() == n, "{w}: into_inner has length {} instead of {n}", p.len());
                for (i, e) in p.iter().enumerate() {
                    let v = e.map(|x| x.val());
                    check!(v == model[i], "{w}: into_inner has {v:x} at {i} instead of {:x}", model[i]);
                }
                let v = ConcurrentVec::from(p);
                check!(v.len() == n, "{w}: a vec from a pinned vector of length {n} has length {}", v.len());
                let m = v.maximum_capacity();
                check!(m >= max, "{w}: the maximum capacity decreased from {max} to {m} by into_inner and from");
                ctx.count("round_trips", 1);
                s = works(v, model, rng, &(w.clone() + " back from into_inner"));
            }
            3 => {
                // a pinned vector which is changed by its own methods
                path += " pinned";
                let mut model = model;
                let mut p = vec.into_inner();
                for _ in 0..rng.below(6) {
                    if p.len() < max && rng.bool() {
                        let v = rng.next() >> 12;
                        p.push(ConcurrentElement::from(ConcurrentOption::some(T::make(v))));
                        model.push(v);
                    } else {
                        let x = p.pop().map(|e| e.map(|x| x.val()));
                        check!(x == model.pop(), "{w}: popping from the pinned vector gives {x:x?}");
                    }
                }
                ctx.count("round_trips", 1);
                s = works(ConcurrentVec::from(p), model, rng, &(w.clone() + " from a changed pinned vector"));
            }
            4 => {
                let v: Vec<u64> = vec.to_vec().iter().map(|x| x.val()).collect();
                check!(v == model, "{w}: to_vec gives {:?}, expected {:?}", diff(&v, &model), diff(&model, &v));
                ctx.count("to_vec", 1);
                s = Sut::new(rng, top + 2);
                path += " to_vec";
            }
            5 => {
                let v: Vec<u64> = vec.into_iter().map(|x| x.val()).collect();
                check!(v == model, "{w}: into_iter gives {:?}, expected {:?}", diff(&v, &model), diff(&model, &v));
                ctx.count("into_iter", 1);
                s = Sut::new(rng, top + 2);
                path += " into_iter";
            }
            6 => {
                walk(&format!("{w}: into_iter"), vec.into_iter(), |x| x.val(), &model, rng);
                ctx.count("into_iter", 1);
                s = Sut::new(rng, top + 2);
                path += " walk";
            }
            _ => {
                // partially consumed, possibly on another thread
                let take = rng.below(n + 2);
                let mut it = vec.into_iter();
                let a: Vec<u64> = it.by_ref().take(take).map(|x| x.val()).collect();
                check!(a[..] == model[..take.min(n)], "{w}: the first {take} values of into_iter are {:?}", diff(&a, &model));
                if rng.bool() {
                    let rest: Vec<u64> = it.by_ref().map(|x| x.val()).collect();
                    check!(rest[..] == model[take.min(n)..], "{w}: the values after the first {take} of into_iter are {:?}", diff(&rest, &model[take.min(n)..]));
                    check!(it.next().is_none(), "{w}: into_iter yields more than {n} values");
                }
                ctx.count("into_iter", 1);
                s = Sut::new(rng, top + 2);
                path += " partial";
            }
        }
        while s.model.is_empty() && top > 0 {
            s.step(rng, &GROW, top.min(20));
        }
    }
    let Sut { vec, model, .. } = s;
    let v: Vec<u64> = vec.to_vec().iter().map(|x| x.val()).collect();
    check!(v == model, "{} {} after conversions {path}: to_vec gives {:?}, expected {:?}", P::NAME, T::NAME, diff(&v, &model), diff(&model, &v));
    ctx.count("to_vec", 1);
    ctx.sig(hash2(h, v.len() as u64));
    ctx.sample(|| format!("{} {} up to {top} elements:{path}", P::NAME, T::NAME));
    check!(tok_live() == 0 || T::NAME != "token", "{} values are alive after everything was dropped", tok_live());
}
fn chain_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => plain_store!(rng, chain, u64, (ctx, rng)),
        1 => plain_store!(rng, chain, String, (ctx, rng)),
        2 => any_store!(rng, chain, Tok, (ctx, rng)),
        _ => plain_store!(rng, chain, Aligned, (ctx, rng)),
    }
}

/// iterator with an arbitrary, correct size hint
struct Hinted<I> {
    it: I,
    left: usize,
    lo: usize,
    hi: Option<usize>,
    done: bool,
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done {
            return None;
        }
        let x = self.it.next();
        match x {
            Some(_) => self.left -= 1,
            None => self.done = true,
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let lo = self.left.min(self.lo);
        (lo, self.hi.map(|h| h.max(self.left)))
    }
}

fn collect<T: Pay>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let n = match rng.below(6) {
        0 => 0,
        1 => *rng.pick(&[1, 3, 4, 5, 11, 12, 13, 28]),
        2 => { let n = ctx.size(400, 200, 14); let n = ctx.rare(rng, n, 9000); rng.skewed(n) }
        _ => rng.skewed(ctx.size(400, 200, 14)),
    };
    let m: Vec<u64> = (0..n).map(|_| rng.next() >> 8).collect();
    let mk = || m.iter().map(|v| T::make(*v));
    let k = rng.below(13);
    let (lo, hi) = match rng.below(9) {
        0 => (n, None),
        6 => (rng.below(n + 1), None),
        7 => (rng.below(n + 1), Some(n + rng.below(9))),
        8 => (rng.below(n + 1), Some(n * 3 + rng.below(500))),
        1 => (0, None),
        2 => (n, Some(n + 1 + rng.below(9))),
        3 => (0, Some(n)),
        4 => (rng.below(n + 1), Some(usize::MAX)),
        _ => (n, Some(n)),
    };
    let vec: ConcurrentVec<T> = match k {
        0 => mk().collect(),
        1 => mk().filter(|_| true).collect(),
        2 => { let mut it = mk(); std::iter::from_fn(move || it.next()).collect() }
        3 => mk().map(Some).take_while(|x| x.is_some()).map(|x| x.expect("some")).collect(),
        4 => ConcurrentVec::from_iter(mk().collect::<Vec<_>>()),
        5 => mk().collect::<std::collections::VecDeque<_>>().into_iter().collect(),
        // hints with a positive lower bound and none or a large upper one
        7 => {
            let a = rng.below(n + 1);
            let rest = &m[a..];
            mk().take(a).chain(rest.iter().filter(|_| true).map(|v| T::make(*v))).collect()
        }
        8 => {
            let a = rng.below(n + 1);
            let mut rest = m[a..].iter();
            mk().take(a).chain(std::iter::from_fn(move || rest.next().map(|v| T::make(*v)))).collect()
        }
        6 => { let a = rng.below(n + 1); let x: Vec<u64> = m[a..].to_vec(); mk().take(a).chain(x.into_iter().map(T::make)).collect() }
        _ => Hinted { it: mk(), left: n, lo, hi, done: false }.collect(),
    };
    let w = format!("collected {} from an iterator of {n} with size hint {:?}", T::NAME, if k > 8 { (lo, hi) } else { (k, None) });
    let s = works(vec, m, rng, &w);
    // a clone is equal and independent
    let n = s.model.len();
    let c = s.vec.clone();
    let cm = s.model.clone();
    let mut s = s;
    check!(c.len() == n, "{w}: the clone of {n} elements has length {}", c.len());
    if n > 0 {
        check!(!std::ptr::eq(&c[0], &s.vec[0]) && c.get_raw(n - 1) != s.vec.get_raw(n - 1), "{w}: a clone shares elements with its original");
    }
    let mut c = works(c, cm, rng, &(w.clone() + " clone"));
    s.verify();
    for _ in 0..rng.below(if MIRI { 4 } else { 12 }) {
        let all: Vec<usize> = (0..13).collect();
        if rng.bool() {
            s.step(rng, &all, if MIRI { 5 } else { 20 });
        } else {
            c.step(rng, &all, if MIRI { 5 } else { 20 });
        }
    }
    s.verify();
    c.verify();
    if rng.bool() {
        drop(s);
        c.verify();
        drop(c);
    } else {
        drop(c);
        s.verify();
        drop(s);
    }
    ctx.count("clones", 1);
    ctx.count("collected", 1);
    ctx.sig(hash2(hash2(n as u64, k as u64), hash2(lo as u64, hi.unwrap_or(7) as u64)));
    ctx.sample(|| w.clone());
    check!(tok_live() == 0 || T::NAME != "token", "{} values are alive after everything was dropped", tok_live());
}
fn collect_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => collect::<u64>(ctx, rng),
        1 => collect::<String>(ctx, rng),
        2 => collect::<Tok>(ctx, rng),
        _ => collect::<Wide>(ctx, rng),
    }
}

const CAP: usize = if cfg!(miri) { 64 } else { 4096 };
struct Versions {
    started: Vec<AtomicU64>,
    done: Vec<AtomicU64>,
}

/// copies taken during growth and updates: value at position i is (i << 32 | version); each copied version
/// was current at some time during the call
fn during<P: Store<Wide>>(ctx: &mut Ctx, rng: &mut Rng, clones: bool, make: impl Fn(&ConcurrentVec<Wide, P>, usize) -> (Vec<u64>, &'static str) + Sync) {
    let writers = rng.range(1, ctx.size(3, 3, 2));
    let growers = rng.range(1, ctx.size(2, 2, 1));
    let copiers = rng.range(1, ctx.size(2, 2, 1));
    let pre = rng.range(1, ctx.size(40, 20, 5));
    let each = rng.range(4, ctx.size(120, 60, 8));
    let vec = P::build(rng, pre + growers * each + 4);
    for _ in 0..pre {
        vec.push_for_idx(|i| Wide::make((i as u64) << 32));
    }
    set_chaos(*rng.pick(&[0, 40, 120]));
    let ver = Versions { started: (0..CAP).map(|_| AtomicU64::new(0)).collect(), done: (0..CAP).map(|_| AtomicU64::new(0)).collect() };
    let running = AtomicUsize::new(writers + growers);
    let mut jobs: Vec<Job<(u64, u64)>> = vec![];
    for t in 0..writers {
        let (vec, running, ver) = (&vec, &running, &ver);
        let mut rng = rng.fork(t as u64);
        jobs.push(job!(move |_| {
            for k in 0..each {
                // each position has one writer
                let n = vec.len().min(CAP);
                let i = (rng.below(n) / writers) * writers + t;
                if i >= n {
                    continue;
                }
                let v = ver.done[i].load(Relaxed) + 1;
                ver.started[i].store(v, SeqCst);
                op("write", || match k % 3 {
                    0 => vec[i].set(Wide::make((i as u64) << 32 | v)),
                    1 => vec[i].update(|x| x.put((i as u64) << 32 | v)),
                    _ => { vec[i].replace(Wide::make((i as u64) << 32 | v)); }
                });
                ver.done[i].store(v, SeqCst);
            }
            running.fetch_sub(1, Relaxed);
            (0u64, 0u64)
        }));
    }
    for _ in 0..growers {
        let (vec, running) = (&vec, &running);
        jobs.push(job!(move |_| {
            for _ in 0..each {
                op("push", || vec.push_for_idx(|i| { user(chaos_point); Wide::make((i as u64) << 32) }));
            }
            running.fetch_sub(1, Relaxed);
            (0u64, 0u64)
        }));
    }
    let make = &make;
    for o in 0..copiers {
        let (vec, running, ver) = (&vec, &running, &ver);
        let mut rng = rng.fork(60 + o as u64);
        jobs.push(job!(move |_| {
            let (mut copies, mut racing) = (0u64, 0u64);
            let mut before = vec![0u64; CAP];
            while running.load(Relaxed) > 0 && (!MIRI || copies < 8) {
                copies += 1;
                let lo = vec.len();
                for i in 0..lo.min(CAP) {
                    before[i] = ver.done[i].load(SeqCst);
                }
                let (c, how) = op("copy", || make(vec, rng.below(64)));
                let hi = vec.len();
                check!(lo <= c.len() && c.len() <= hi, "{}: {how} has {} values, while the length was {lo} before and {hi} after the call", P::NAME, c.len());
                for (i, v) in c.iter().enumerate() {
                    let (p, v) = ((v >> 32) as usize, v & 0xffff_ffff);
                    check!(p == i, "{}: {how} has a value of position {p} at position {i}", P::NAME);
                    if i < CAP {
                        let max = ver.started[i].load(SeqCst);
                        let min = if i < lo { before[i] } else { 0 };
                        check!(min <= v && v <= max, "{}: {how} has version {v} of position {i}, while version {min} was complete before and {max} the last one begun after the call", P::NAME);
                        racing += (max > min) as u64;
                    }
                }
            }
            (copies, racing)
        }));
    }
    let r = par(rng.next(), jobs);
    set_chaos(0);
    let (n, g) = r.iter().fold((0, 0), |(a, b), x| (a + x.0, b + x.1));
    ctx.count(if clones { "clones_during_changes" } else { "copies_during_changes" }, n);
    ctx.count("racing_positions", g);
    ctx.sig(hash2(hash2(n, g), hash2(vec.len() as u64, hash_str(P::NAME))));
    ctx.sample(|| format!("{}: {n} copies, {g} positions were written during the call, final length {}", P::NAME, vec.len()));
}
fn copies<P: Store<Wide>>(ctx: &mut Ctx, rng: &mut Rng) {
    during::<P>(ctx, rng, false, |v, k| match k % 3 {
        0 => (v.clone_to_vec().iter().map(|x| x.val()).collect(), "clone_to_vec"),
        1 => (v.as_slice().clone_to_vec().iter().map(|x| x.val()).collect(), "clone_to_vec of as_slice"),
        _ => (v.slice(..).clone_to_vec().iter().map(|x| x.val()).collect(), "clone_to_vec of slice(..)"),
    });
}
fn copies_any(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.bool() {
        during::<Dbl<Wide>>(ctx, rng, true, |v, k| {
            let c = v.clone();
            let n = c.len();
            let m = contents(&c);
            check!(m.len() == n, "a clone taken during growth has length {n} and {} elements", m.len());
            // it is a working collection of its own
            c.push(Wide::make(1));
            check!(c.len() == n + 1 && c[n].map(|x| x.val()) == 1, "a clone taken during growth does not grow");
            if k % 2 == 0 {
                c.fill(Wide::make(2));
            }
            (m, "clone")
        });
    } else {
        any_store2!(rng, copies, Wide, (ctx, rng))
    }
}

/// values leave the vec on another thread
fn sent(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let n = rng.skewed(ctx.size(300, 100, 8));
    let vec: ConcurrentVec<Tok> = (0..n as u64).map(Tok::new).collect();
    let take = rng.below(n + 1);
    let mut it = vec.into_iter();
    let a: Vec<Tok> = it.by_ref().take(take).collect();
    let b: Vec<u64> = std::thread::scope(|s| s.spawn(move || it.map(|x| x.val()).collect()).join().unwrap_or_default());
    let e: Vec<u64> = (take as u64..n as u64).collect();
    check!(b == e, "into_iter continued on another thread after {take} values gives {:?} instead of {:?}", diff(&b, &e), diff(&e, &b));
    check!(tok_live() == take as i64, "{} values alive instead of {take}", tok_live());
    drop(a);
    check!(tok_live() == 0, "{} values are alive after everything was dropped", tok_live());
    ctx.count("sent_iterators", 1);
    ctx.sig(hash2(n as u64, take as u64));
}

/// operations which need an element that another thread holds at that moment
fn held(ctx: &mut Ctx, rng: &mut Rng) {
    busy_any(ctx, rng, &[busy::Need::CloneToVec, busy::Need::CloneVec]);
}

fn main() {
    run(
        "C13",
        &[
            Scenario::new("chain", 4, chain_any).miri().seq(),
            Scenario::new("collect", 3, collect_any).miri().seq(),
            Scenario::new("copies", 3, copies_any).miri(),
            Scenario::new("sent", 1, sent).miri(),
            Scenario::new("held", 1, held).miri(),
            Scenario::new("huge", 1, |ctx, rng| huge(ctx, rng, "C13")).seq(),
        ],
    );
}
