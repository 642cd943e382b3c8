use mon::growth::*;
use mon::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// stalls instead of giving its k-th item
struct Slow {
    vals: Vec<u64>,
    at: usize,
    k: usize,
    gate: usize,
}
impl Iterator for Slow {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.k == self.at {
            stall_at(self.gate);
        }
        let v = self.vals.get(self.k).copied();
        self.k += 1;
        v.map(Tok::new)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.vals.len() - self.k;
        (n, Some(n))
    }
}
impl ExactSizeIterator for Slow {}

#[derive(Clone, Debug)]
enum Stall {
    /// (callback, element, second element which is held as well, window of a traversal)
    Elem(usize, usize, usize, (usize, usize)),
    /// (kind, values, items given before)
    Grow(usize, Vec<u64>, usize),
}

/// an operation that needs element t, which a stalled call holds, and maybe its own element o: it
/// hinders nobody else while it waits
#[derive(Clone, Debug)]
struct Wait {
    what: &'static str,
    t: usize,
    o: usize,
    stall: usize,
}
const WAITS: [&str; 13] = [
    "swap(t, o)", "swap(o, t)", "slice swap", "update", "replace", "set", "cloned", "map", "t == o", "o == t", "get_cloned", "fill_with", "Debug",
];
/// what it saw of t: a value, or the result of the comparison
fn wait_op<P: Store<Tok>>(vec: &ConcurrentVec<Tok, P>, w: &Wait, new: u64) -> u64 {
    let (t, o) = (w.t, w.o);
    let mut seen = 0;
    match w.what {
        "swap(t, o)" => seen = vec.swap(t, o) as u64,
        "swap(o, t)" => seen = vec.swap(o, t) as u64,
        "slice swap" => {
            let a = t.min(o) / 2;
            seen = vec.slice(a..=t.max(o)).swap(t - a, o - a) as u64;
        }
        "update" => vec[t].update(|x| {
            seen = x.val();
            x.put(new)
        }),
        "replace" => seen = vec[t].replace(Tok::new(new)).val(),
        "set" => vec[t].set(Tok::new(new)),
        "cloned" => seen = vec[t].cloned().val(),
        "map" => seen = vec[t].map(|x| x.val()),
        "t == o" => seen = (vec[t] == vec[o]) as u64,
        "o == t" => seen = (vec[o] == vec[t]) as u64,
        "get_cloned" => seen = vec.get_cloned(t).map_or(0, |x| x.val()),
        "fill_with" => vec.slice(t..t + 1).fill_with(|_| Tok::new(new)),
        _ => seen = format!("{:?}", vec[t]).parse().unwrap_or(1),
    }
    seen
}

/// operations on elements which nobody holds: a window (a, b) of the prefilled part; the elements are owned by the caller
fn others<P: Store<Tok>>(vec: &ConcurrentVec<Tok, P>, free: &[usize], model: &mut HashMap<usize, u64>, rng: &mut Rng, next: &mut dyn FnMut() -> u64) -> &'static str {
    let i = *rng.pick(free);
    let j = *rng.pick(free);
    let want = model[&i];
    let e = op("get", || vec.get(i));
    let Some(e) = e else { violation(format!("{}: get({i}) is None while other elements are held", P::NAME)) };
    let eq = |what: &str, x: u64| check!(x == want, "{}: {what} of {i} gave {x:x}, expected {want:x}", P::NAME);
    match rng.below(16) {
        0 => {
            eq("map", op("map", || e.map(|x| x.val())));
            "map"
        }
        1 => {
            eq("cloned", op("cloned", || e.cloned()).val());
            "cloned"
        }
        2 => {
            let v = next();
            op("update", || e.update(|x| {
                eq("update", x.val());
                x.put(v)
            }));
            model.insert(i, v);
            "update"
        }
        3 => {
            let v = next();
            op("set", || e.set(Tok::new(v)));
            model.insert(i, v);
            "set"
        }
        4 => {
            let v = next();
            eq("replace", op("replace", || e.replace(Tok::new(v))).val());
            model.insert(i, v);
            "replace"
        }
        5 => {
            check!(op("swap", || vec.swap(i, j)), "{}: swap({i}, {j}) returned false", P::NAME);
            let x = model[&j];
            model.insert(i, x);
            model.insert(j, want);
            "swap"
        }
        6 => {
            let r = op("==", || vec[i] == vec[j]);
            check!(r == (want == model[&j]), "{}: wrong comparison of {i} and {j}", P::NAME);
            "=="
        }
        7 => {
            eq("get_cloned", op("get_cloned", || vec.get_cloned(i)).map_or(u64::MAX, |x| x.val()));
            "get_cloned"
        }
        8 => {
            let s = op("slice", || vec.slice(i..i + 1));
            let v = next();
            op("fill", || s.fill(Tok::new(v)));
            model.insert(i, v);
            "fill"
        }
        9 => {
            let s = op("slice", || vec.slice(i..=i));
            let v = op("clone_to_vec", || s.clone_to_vec());
            check!(v.len() == 1, "{}: clone_to_vec of one element gave {}", P::NAME, v.len());
            eq("clone_to_vec", v[0].val());
            let x = op("fold", || s.fold(0, |_, x| x.val()));
            eq("fold", x);
            "slice queries"
        }
        10 => {
            let x = op("get_ref", || unsafe { vec.get_ref(i) }.map(|x| x.val()));
            eq("get_ref", x.unwrap_or(u64::MAX));
            "get_ref"
        }
        11 => {
            let n = op("len", || vec.len());
            check!(n > i && !op("is_empty", || vec.is_empty()), "{}: length {n} although {i} is written", P::NAME);
            "len"
        }
        12 | 15 => {
            // handing out references needs no value
            let k = i % 3 + 1;
            let n = op("partition", || {
                let n = vec.chunks(k).map(|s| s.len()).sum::<usize>();
                let (l, r) = vec.split_at(i);
                let m = l.len() + r.len();
                let c = vec.iter().count();
                let s = vec.as_slice();
                check!(s.get(i).is_some() && n > i && m > i && c > i && s.len() > i, "{}: position {i} is not part of a view", P::NAME);
                n
            });
            check!(n > i, "{}: chunks end before {i}", P::NAME);
            // also of elements which are held
            let h = rng.below(i.max(j) + 1);
            let m = i.max(j) - h + 1;
            let k = rng.below(m);
            let (a, b, c) = op("references", || {
                let s = vec.slice(h..h + m);
                let first = s.split_first().map(|(e, r)| (core::ptr::from_ref(e), r.len()));
                let last = s.split_last().map(|(e, r)| (core::ptr::from_ref(e), r.len()));
                let e = core::ptr::from_ref(&vec[h]);
                check!(
                    first == Some((e, m - 1)) && last.map(|x| x.1) == Some(m - 1) && s.get(0).map(core::ptr::from_ref) == Some(e) && vec.get(h).map(core::ptr::from_ref) == Some(e),
                    "{}: the references to {h} differ", P::NAME
                );
                check!(vec.split_first().map(|x| core::ptr::from_ref(x.0)) == vec.get(0).map(core::ptr::from_ref) && vec.split_last().is_some(), "{}: split_first/last", P::NAME);
                let r = (vec.iter().nth(h + k).map(core::ptr::from_ref), s.iter().nth(k).map(core::ptr::from_ref), s.get(k).map(core::ptr::from_ref));
                r
            });
            check!(a.is_some() && a == b && b == c, "{}: the references to {} differ", P::NAME, h + k);
            let (way, salt) = (rng.below(WAYS), rng.below(64));
            eq("map after reaching it by other elements", op("map", || reach(vec, i, way, salt, |e| e.map(|x| x.val()))));
            "partition"
        }
        13 => {
            let s = format!("{:?}", e);
            check!(s == format!("{want}"), "{}: Debug of {i} gave {s}", P::NAME);
            "Debug"
        }
        _ => {
            let s = op("slice", || vec.slice(i..i + 1));
            let v = Tok::new(want);
            check!(op("index_of", || s.index_of(&v)) == Some(0) && op("contains", || s.contains(&v)), "{}: value of {i} is not found", P::NAME);
            "index_of"
        }
    }
}

static DONE_WORK: AtomicU64 = AtomicU64::new(0);

fn stalls<P: Store<Tok> + 'static>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    gates_reset();
    let ns = rng.range(1, ctx.size(4, 4, 2));
    let workers = rng.range(1, ctx.size(4, 3, 2));
    let steps = rng.range(5, ctx.size(50, 30, 6));
    let batch = *rng.pick(&[1, 3, ctx.size(40, 20, 5)]);
    let grow_share = *rng.pick(&[20, 50, 100]);
    let pre0 = rng.range(3 * ns + workers, 3 * ns + workers + ctx.size(20, 10, 2));
    let need = pre0 * 2 + 130 + ns * batch + workers * steps * batch;
    let vec = match rng.bool() {
        true => P::tight(rng, need).unwrap_or_else(|| P::build(rng, need)),
        false => P::build(rng, need),
    };
    // often the stalled call is the one that reaches the end of the allocated capacity
    let mut pre = pre0;
    let mut m: Vec<u64> = prefill(&vec, pre);
    if rng.chance(2, 3) && vec.capacity() < vec.maximum_capacity() && vec.capacity() - pre < 100 {
        let back = rng.below(batch.min(4));
        while pre + back < vec.capacity() {
            let v = uniq(1 << 20, pre as u64);
            vec.push(Tok::new(v));
            m.push(v);
            pre += 1;
        }
    }
    // distinct elements are held
    let mut idx: Vec<usize> = (0..pre).collect();
    for i in (1..pre).rev() {
        idx.swap(i, rng.below(i + 1));
    }
    let with_growth = rng.chance(3, 4);
    let mut plan: Vec<Stall> = (0..ns)
        .map(|s| {
            if with_growth && rng.chance(2, 3) {
                let kind = rng.range(1, 4);
                let n = if kind == 1 { 1 } else { rng.range(1, batch) };
                let vals = (0..n).map(|k| uniq(500 + s, k as u64)).collect();
                Stall::Grow(kind, vals, rng.below(n))
            } else {
                let (t, o) = (idx.pop().unwrap_or(0), idx.pop().unwrap_or(0));
                Stall::Elem(rng.below(HOLDERS.len()), t, o, (t, t + 1))
            }
        })
        .collect();
    for st in &mut plan {
        if let Stall::Elem(_, t, _, w) = st {
            while w.0 > 0 && idx.contains(&(w.0 - 1)) && *t - w.0 < 6 {
                w.0 -= 1;
            }
            while idx.contains(&w.1) && w.1 - *t < 6 {
                w.1 += 1;
            }
        }
    }
    let plan = plan;
    // each held element is waited for by one thread at most, each of which has its other element for itself
    let mut waits: Vec<Wait> = vec![];
    for (s, st) in plan.iter().enumerate() {
        if let Stall::Elem(cb, t, _, win) = st {
            // (fill_with asks for a value before it takes the element)
            if HOLDERS[*cb] != "slice fill_with" && rng.chance(1, 2) {
                let free = (0..idx.len()).find(|k| !(win.0..win.1).contains(&idx[*k]) && plan.iter().all(|p| !matches!(p, Stall::Elem(_, _, _, w) if (w.0..w.1).contains(&idx[*k]))));
                if let (Some(k), true) = (free, idx.len() > workers) {
                    waits.push(Wait { what: *rng.pick(&WAITS), t: *t, o: idx.remove(k), stall: s });
                }
            }
        }
    }
    let waits = waits;
    let shares: Vec<Vec<usize>> = (0..workers).map(|w| idx.iter().copied().skip(w).step_by(workers).collect()).collect();
    set_chaos(*rng.pick(&[0, 40, 120]));
    let turn = AtomicUsize::new(0);
    let go = AtomicUsize::new(0);
    let finished = AtomicUsize::new(0);
    DONE_WORK.store(0, Relaxed);
    enum Out {
        Stalled(usize, u64, Option<usize>),
        Worker(HashMap<usize, u64>, Vec<Grown>, u64),
        Coord(u64),
        Waiter(usize, u64),
    }
    let (start, waiting) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let (startr, waitingr) = (&start, &waiting);
    // positions which the stalled growth calls own, as they start one after the other
    let mut begins = vec![];
    let mut total = pre;
    for st in &plan {
        begins.push(total);
        if let Stall::Grow(_, vals, _) = st {
            total += vals.len();
        }
    }
    let (vecr, mr, turnr, gor, finr) = (&vec, &m, &turn, &go, &finished);
    let mut jobs: Vec<Job<Out>> = vec![];
    for (s, st) in plan.iter().enumerate() {
        jobs.push(job!(move |_| {
            wait_for(|| turnr.load(Acquire) == s + 1);
            let r = match st {
                Stall::Elem(cb, t, o, win) => {
                    let left = op(HOLDERS[*cb], || hold(vecr, s, *cb, *t, *o, *win, mr, uniq(400 + s, 1)));
                    Out::Stalled(s, left, None)
                }
                Stall::Grow(kind, vals, at) => {
                    let slow = Slow { vals: vals.clone(), at: *at, k: 0, gate: s };
                    let n = vals.len();
                    let b = op(KINDS[*kind], || match kind {
                        1 => vecr.push_for_idx(|_| {
                            stall_at(s);
                            Tok::new(vals[0])
                        }),
                        2 => vecr.extend(slow),
                        3 => vecr.extend_for_idx(
                            |_| {
                                if *at == 0 {
                                    stall_at(s);
                                    Slow { at: usize::MAX, ..slow }
                                } else {
                                    slow
                                }
                            },
                            n,
                        ),
                        _ => vecr.extend_n_items(slow, n),
                    });
                    Out::Stalled(s, 0, Some(b))
                }
            };
            GATES[s].done.store(1, Release);
            r
        }));
    }
    for (k, w) in waits.iter().enumerate() {
        jobs.push(job!(move |_| {
            wait_for(|| startr.load(Acquire) == 1);
            waitingr.fetch_add(1, Release);
            Out::Waiter(k, op("an operation on a held element", || wait_op(vecr, w, uniq(300 + k, 1))))
        }));
    }
    for (w, free) in shares.iter().enumerate() {
        let mut rng = rng.fork(w as u64);
        jobs.push(job!(move |_| {
            let mut k = 0u64;
            let mut model: HashMap<usize, u64> = free.iter().map(|i| (*i, mr[*i])).collect();
            let mut grown = vec![];
            let mut sig = 0;
            wait_for(|| gor.load(Acquire) == 1);
            for _ in 0..steps {
                let mut next = || {
                    k += 1;
                    uniq(w, k)
                };
                if rng.below(100) < grow_share {
                    let (kind, n) = (rng.below(5), rng.below(batch + 1));
                    grown.push(grow_once(vecr, kind, n, false, w, next));
                    sig = hash2(sig, kind as u64);
                } else if !free.is_empty() {
                    sig = hash2(sig, hash_str(others(vecr, free, &mut model, &mut rng, &mut next)));
                }
                DONE_WORK.fetch_add(1, Relaxed);
            }
            finr.fetch_add(1, Release);
            Out::Worker(model, grown, sig)
        }));
    }
    {
        let (plan, begins, nw) = (&plan, &begins, waits.len());
        let mut rng = rng.fork(99);
        jobs.push(job!(move |_| {
            for s in 0..plan.len() {
                turnr.store(s + 1, Release);
                wait_for(|| GATES[s].arrived.load(Acquire) == 1 || GATES[s].done.load(Acquire) == 1);
                check!(GATES[s].done.load(Acquire) == 0, "{}: {:?} did not call the user's code", P::NAME, plan[s]);
            }
            startr.store(1, Release);
            wait_for(|| waitingr.load(Acquire) == nw);
            for _ in 0..if MIRI { 1 } else { rng.below(40) } {
                std::thread::yield_now();
            }
            gor.store(1, Release);
            // the others complete while all of these are stalled
            wait_for(|| finr.load(Acquire) == workers);
            let mut open: Vec<usize> = (0..plan.len()).collect();
            let mut checks = 0u64;
            loop {
                let w = || format!("{}: {open:?} of {plan:?} are stalled, everything else has returned", P::NAME);
                let first = open.iter().filter(|s| matches!(plan[**s], Stall::Grow(..))).min();
                let n = op("len", || vecr.len());
                match first {
                    Some(s) => {
                        let Stall::Grow(_, _, at) = &plan[*s] else { unreachable!() };
                        check!(n >= begins[*s] && n <= begins[*s] + at, "{}; the length is {n}, expected {}..={}", w(), begins[*s], begins[*s] + at);
                    }
                    None => check!(n >= total, "{}; the length is {n}, expected {total} at least", w()),
                }
                check!(op("iter", || vecr.iter().count()) == n, "{}; iter does not yield {n} elements", w());
                check!(op("slice", || vecr.slice(..).len()) == n, "{}; a slice has not {n} elements", w());
                checks += 1;
                if open.is_empty() {
                    break;
                }
                let s = open.remove(rng.below(open.len()));
                GATES[s].open.store(1, Release);
                wait_for(|| GATES[s].done.load(Acquire) == 1);
            }
            Out::Coord(checks)
        }));
    }
    let outs = par(rng.next(), jobs);
    set_chaos(0);
    let what = format!("{} {workers} workers while {plan:?}, {waits:?}", P::NAME);
    // everything is there and right
    let mut fin: HashMap<usize, u64> = m.iter().copied().enumerate().collect();
    let (mut ops, mut h, mut waited) = (vec![], 0, vec![]);
    for o in outs {
        match o {
            Out::Stalled(s, left, begin) => match &plan[s] {
                Stall::Elem(_, t, _, _) => {
                    fin.insert(*t, left);
                }
                Stall::Grow(kind, vals, _) => {
                    let b = begin.unwrap_or(0);
                    check!(b == begins[s], "{what}: the stalled call {s} returned {b}, expected {}", begins[s]);
                    ops.push(Grown { thread: 500 + s, kind: KINDS[*kind], inv: 0, ret: u64::MAX, begin: b, vals: vals.clone(), born: vec![0; vals.len()] });
                    ctx.count("stalled_growths", 1);
                }
            },
            Out::Worker(model, g, s) => {
                fin.extend(model);
                ops.extend(g);
                h = hash2(h, s);
            }
            Out::Waiter(k, x) => waited.push((k, x)),
            Out::Coord(c) => ctx.count("releases_checked", c),
        }
    }
    // the operations on the held elements come after those which held them
    for (k, seen) in waited {
        let w = &waits[k];
        let (a, b, new) = (fin[&w.t], fin[&w.o], uniq(300 + k, 1));
        let (expected, a, b) = match w.what {
            "swap(t, o)" | "swap(o, t)" | "slice swap" => (1, b, a),
            "update" | "replace" => (a, new, b),
            "set" | "fill_with" => (0, new, b),
            "t == o" | "o == t" => ((a == b) as u64, a, b),
            _ => (a, a, b),
        };
        check!(seen == expected, "{what}: {w:?} saw {seen:x} instead of {expected:x}");
        fin.insert(w.t, a);
        fin.insert(w.o, b);
        ctx.count("operations_waiting", 1);
    }
    let c = contents(&vec);
    let fin: Vec<u64> = (0..pre).map(|i| fin[&i]).collect();
    check_growth(&what, &c, &fin, &ops);
    let n: usize = ops.iter().map(|g| g.vals.len()).sum();
    check!(c.len() == pre + n && vec.len() == pre + n, "{what}: the length is {}, expected {}", vec.len(), pre + n);
    let crossed = ops.iter().any(|g| g.thread < 500 && !g.vals.is_empty()) && plan.iter().any(|p| matches!(p, Stall::Grow(..)));
    ctx.count("operations_during_stalls", DONE_WORK.load(Relaxed));
    ctx.count("growths_behind_stalled_ones", crossed as u64);
    ctx.count("stalled_callbacks", plan.iter().filter(|p| matches!(p, Stall::Elem(..))).count() as u64);
    ctx.sig(hash2(h, hash_str(&format!("{plan:?}"))));
    ctx.sample(|| format!("{what}: {} operations", DONE_WORK.load(Relaxed)));
}
fn stalls_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, stalls, Tok, (ctx, rng));
}

/// values are cloned before any query has counted them: by get_cloned, which reaches completed values
/// directly. The ones who count them do not wait.
fn uncounted<P: Store<Tok> + 'static>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    gates_reset();
    let pre = rng.below(ctx.size(30, 20, 4));
    let after = rng.range(1, ctx.size(30, 20, 4));
    let with_gap = rng.chance(2, 3);
    let ng = with_gap as usize;
    let holders = rng.range(1, ctx.size(3, 3, 2)).min(pre + after);
    let extra = rng.range(1, ctx.size(40, 20, 3));
    let vec = P::build(rng, pre + ng + after + extra * 2);
    prefill(&vec, pre);
    if rng.bool() {
        vec.len();
    }
    // values of the positions; the one of the growth call that is stalled comes last
    let val = |i: usize| uniq(700, i as u64);
    let slow = val(pre);
    let total = pre + ng + after;
    let mut held: Vec<usize> = (0..total).filter(|i| !(with_gap && *i == pre)).collect();
    while held.len() > holders {
        held.remove(rng.below(held.len()));
    }
    let expected: Vec<u64> = (0..total).map(|i| if i < pre { uniq(1 << 20, i as u64) } else { val(i) }).collect();
    // gates: the holders, then the growth call
    let mut order: Vec<usize> = (0..holders + ng).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i + 1));
    }
    let (started, go) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let (vecr, heldr, expr, orderr, startedr, gor) = (&vec, &held, &expected, &order, &started, &go);
    let mut jobs: Vec<Job<u64>> = vec![];
    for (s, t) in held.iter().enumerate() {
        jobs.push(job!(move |_| {
            wait_for(|| gor.load(Acquire) == 1);
            let want = expr[*t];
            tok_stall_on(Callback::Clone, want, s);
            let x = op("get_cloned", || vecr.get_cloned(*t));
            tok_stall_off();
            // (what is behind a position that is not written yet need not be an element)
            check!(
                x.as_ref().map(|x| x.val()) == Some(want) || (x.is_none() && with_gap && *t > pre),
                "{}: get_cloned({t}) gave {:x?} instead of {want:x}", P::NAME, x.map(|x| x.val())
            );
            GATES[s].done.store(1, Release);
            0u64
        }));
    }
    if with_gap {
        jobs.push(job!(move |_| {
            let i = op("push_for_idx", || {
                vecr.push_for_idx(|_| {
                    stall_at(holders);
                    Tok::new(slow)
                })
            });
            check!(i == pre, "{}: push_for_idx returned {i} instead of {pre}", P::NAME);
            GATES[holders].done.store(1, Release);
            0u64
        }));
    }
    {
        let mut rng = rng.fork(7);
        jobs.push(job!(move |_| {
            if with_gap {
                wait_for(|| GATES[holders].arrived.load(Acquire) == 1);
            }
            for i in pre + ng..total {
                let p = op("push", || vecr.push(Tok::new(expr[i])));
                check!(p == i, "{}: push returned {p} instead of {i}", P::NAME);
            }
            gor.store(1, Release);
            for s in 0..heldr.len() {
                wait_for(|| GATES[s].arrived.load(Acquire) == 1 || GATES[s].done.load(Acquire) == 1);
                check!(GATES[s].done.load(Acquire) == 0 || (with_gap && heldr[s] > pre), "{}: get_cloned({}) did not clone", P::NAME, heldr[s]);
            }
            startedr.store(1, Release);
            let mut open: Vec<usize> = orderr.clone();
            let (mut added, mut k) = (0, 0u64);
            loop {
                let gap = open.contains(&holders);
                let there = match gap {
                    true => pre,
                    false => total + added,
                };
                let w = || format!("{}: {total} values, those at {heldr:?} are being cloned{}", P::NAME, if gap { format!(", the one at {pre} is not there yet") } else { String::new() });
                for _ in 0..2 {
                    let n = match rng.below(6) {
                        0 => op("len", || vecr.len()),
                        1 => op("iter", || vecr.iter().count()),
                        2 => op("slice", || vecr.slice(..).len()),
                        3 => op("as_slice", || vecr.as_slice().len()),
                        4 => (0..total + added + 1).position(|i| op("get", || vecr.get(i)).is_none()).unwrap_or(usize::MAX),
                        _ => op("split_at", || vecr.split_at(0).1.len()),
                    };
                    check!(n == there, "{}; the length is {n} instead of {there}", w());
                    k += 1;
                }
                // the others are usable
                for _ in 0..rng.below(4) {
                    let i = rng.below(there.min(total).max(1));
                    if i < there && !heldr.contains(&i) {
                        let x = op("map", || vecr[i].map(|x| x.val()));
                        check!(x == expr[i], "{}; the value at {i} is {x:x}", w());
                    }
                }
                if added < extra {
                    let p = op("push", || vecr.push(Tok::new(uniq(701, added as u64))));
                    check!(p == total + added, "{}; push returned {p}", w());
                    added += 1;
                }
                let Some(s) = open.pop() else { break };
                GATES[s].open.store(1, Release);
                wait_for(|| GATES[s].done.load(Acquire) == 1);
            }
            k
        }));
    }
    let outs = par(rng.next(), jobs);
    ctx.count("queries_of_uncounted", outs.iter().sum());
    let c = contents(&vec);
    check!(c[..total] == expected[..], "{}: the contents are {:x?} instead of {expected:x?}", P::NAME, &c[..total]);
    ctx.sig(hash2(hash2(hash_str(P::NAME), (pre * 64 + after) as u64), hash_str(&format!("{held:?} {order:?} {with_gap}"))));
    ctx.sample(|| format!("{}: {pre} + {after} values, get_cloned of {held:?}, gap: {with_gap}", P::NAME));
}
fn uncounted_any(ctx: &mut Ctx, rng: &mut Rng) {
    any_store2!(rng, uncounted, Tok, (ctx, rng));
}

fn main() {
    run("C17", &[Scenario::new("stalls", 4, stalls_any).miri(), Scenario::new("uncounted", 1, uncounted_any).miri()]);
}
