//! Operations that need an element which somebody else holds at that very moment: they must wait
//! for it (or not need its value) and then give what one of the two sequential orders gives.
use crate::growth::*;
use crate::*;
use std::any::Any;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const HOLDERS: [&str; 22] = [
    "element map", "update", "cloned", "set (drop of the old value)", "element == element", "element == value", "element Debug",
    "iter map", "map", "filter", "fold", "reduce", "clone_to_vec", "iter_cloned", "index_of", "slice Debug", "slice fill (drop of an old value)",
    "slice fill_with", "get_cloned", "swapped comparison", "slice == slice", "slice == [T]",
];
/// the ones whose callbacks are closures, hence, possible with all payloads
pub const CLOSURES: [usize; 8] = [0, 1, 7, 8, 9, 10, 11, 17];

/// stalls inside of a callback while it holds element t (and o); returns the value that it leaves in t
pub fn hold<T: Pay, P: Store<T> + 'static>(vec: &ConcurrentVec<T, P>, gate: usize, cb: usize, t: usize, o: usize, (a, b): (usize, usize), m: &[u64], new: u64) -> u64 {
    let (e, x) = (&vec[t], m[t]);
    let st = |v: u64| {
        if v == x {
            stall_at(gate)
        }
    };
    // a traversal is stalled at t and needs no other element meanwhile
    let s = if cb == 16 || cb == 17 { vec.slice(t..t + 1) } else { vec.slice(a..b) };
    let mut left = x;
    match cb {
        0 => e.map(|v| {
            stall_at(gate);
            check!(v.val() == x, "the value changed while it was being read by map");
        }),
        1 => {
            e.update(|v| {
                check!(v.val() == x, "update is given a wrong value");
                // an intermediate state
                v.put(!new);
                stall_at(gate);
                check!(v.val() == !new, "the value was changed by somebody else during an update");
                v.put(new);
            });
            left = new;
        }
        2 => {
            tok_stall_on(Callback::Clone, x, gate);
            e.cloned();
        }
        3 => {
            tok_stall_on(Callback::Drop, x, gate);
            e.set(T::make(new));
            left = new;
        }
        4 => {
            tok_stall_on(Callback::Eq, x, gate);
            let _ = *e == vec[o];
        }
        5 => {
            let v = T::make(new);
            tok_stall_on(Callback::Eq, x, gate);
            let _ = *e == v;
        }
        6 => {
            tok_stall_on(Callback::Debug, x, gate);
            let _ = format!("{e:?}");
        }
        7 => s.iter().for_each(|e| e.map(|v| st(v.val()))),
        8 => s.map(|v| st(v.val())).for_each(|_| {}),
        9 => {
            s.filter(|v| {
                st(v.val());
                true
            })
            .count();
        }
        10 => {
            s.fold(0, |a, v| {
                st(v.val());
                a + 1
            });
        }
        11 => {
            if T::NAME == "token" {
                tok_stall_on(Callback::Clone, x, gate);
                s.reduce(|a, b| {
                    st(b.val());
                    a.clone()
                });
            } else if t > 0 {
                vec.slice(t - 1..t + 1).reduce(|a, b| {
                    st(b.val());
                    a.clone()
                });
            } else {
                e.map(|_| stall_at(gate))
            }
        }
        12 => {
            tok_stall_on(Callback::Clone, x, gate);
            s.clone_to_vec();
        }
        13 => {
            tok_stall_on(Callback::Clone, x, gate);
            s.iter_cloned().count();
        }
        14 => {
            let v = T::make(new);
            tok_stall_on(Callback::Eq, x, gate);
            s.index_of(&v);
        }
        15 => {
            tok_stall_on(Callback::Debug, x, gate);
            let _ = format!("{s:?}");
        }
        16 => {
            tok_stall_on(Callback::Drop, x, gate);
            s.fill(T::make(new));
            left = new;
        }
        17 => {
            s.fill_with(|_| {
                stall_at(gate);
                T::make(new)
            });
            left = new;
        }
        18 => {
            tok_stall_on(Callback::Clone, x, gate);
            vec.get_cloned(t);
        }
        19 => {
            tok_stall_on(Callback::Eq, x, gate);
            let _ = vec[o] == *e;
        }
        20 => {
            let dbl = (vec as &dyn Any).downcast_ref::<ConcurrentVec<T>>();
            let other: ConcurrentVec<T> = m[a..b].iter().map(|v| T::make(*v)).collect();
            match dbl {
                Some(vec) => {
                    tok_stall_on(Callback::Eq, x, gate);
                    let s = vec.slice(a..b);
                    let _ = if new % 2 == 0 { s == other } else { other == s };
                }
                None => e.map(|_| stall_at(gate)),
            }
        }
        _ => {
            let dbl = (vec as &dyn Any).downcast_ref::<ConcurrentVec<T>>();
            let other: Vec<T> = m[a..b].iter().map(|v| T::make(*v)).collect();
            match dbl {
                Some(vec) => {
                    tok_stall_on(Callback::Eq, x, gate);
                    let _ = vec.slice(a..b) == other[..];
                }
                None => e.map(|_| stall_at(gate)),
            }
        }
    }
    tok_stall_off();
    left
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Need {
    Set,
    Replace,
    Update,
    Map,
    Cloned,
    Copied,
    GetCloned,
    SliceGetCloned,
    SliceFillWith,
    SliceFill,
    FillWith,
    Fill,
    Swap,
    SwapBack,
    SliceSwap,
    SwapSame,
    SwapOut,
    IterMap,
    IterCloned,
    VecMap,
    Filter,
    Fold,
    Reduce,
    CloneToVec,
    Debug,
    IndexOf,
    Contains,
    ElemEqElem,
    ElemEqValue,
    SliceEqSlice,
    VecEqArray,
    VecEqVec,
    CloneVec,
    Views,
    Push,
}
use Need::*;
pub const SINGLE: [Need; 8] = [Set, Replace, Update, Map, Cloned, Copied, GetCloned, SliceGetCloned];
pub const FILLS: [Need; 4] = [SliceFillWith, SliceFill, FillWith, Fill];
pub const SWAPS: [Need; 5] = [Swap, SwapBack, SliceSwap, SwapSame, SwapOut];
pub const TRAVERSALS: [Need; 10] = [IterMap, IterCloned, VecMap, Filter, Fold, Reduce, CloneToVec, Need::Debug, IndexOf, Contains];
pub const EQS: [Need; 5] = [ElemEqElem, ElemEqValue, SliceEqSlice, VecEqArray, VecEqVec];
pub const READS: [Need; 11] = [Map, Cloned, Copied, GetCloned, SliceGetCloned, IterMap, IterCloned, VecMap, Fold, CloneToVec, CloneVec];

struct Args {
    t: usize,
    o: usize,
    /// window which contains t
    win: (usize, usize),
    way: usize,
    salt: usize,
    val: u64,
    /// what the other side of a comparison has
    other: Vec<u64>,
    whole: bool,
}

fn run<T: Pay, P: Store<T> + 'static>(vec: &ConcurrentVec<T, P>, k: Need, x: &Args) -> Vec<u64> {
    let &Args { t, o, win: (a, b), way, salt, val, whole, .. } = x;
    let one = |v: u64| vec![v];
    let opt = |v: Option<u64>| v.map_or(vec![], |v| vec![v]);
    let is = |b: bool| vec![b as u64];
    macro_rules! both {
        ($s:ident => $e:expr) => {
            if whole {
                let $s = vec;
                $e
            } else {
                let $s = vec.slice(a..b);
                let r = $e;
                r
            }
        };
    }
    match k {
        Set => {
            reach(vec, t, way, salt, |e| e.set(T::make(val)));
            vec![]
        }
        Replace => one(reach(vec, t, way, salt, |e| e.replace(T::make(val))).val()),
        Update => {
            let mut seen = vec![];
            reach(vec, t, way, salt, |e| {
                e.update(|x| {
                    seen.push(x.val());
                    x.put(val)
                })
            });
            seen
        }
        Map => one(reach(vec, t, way, salt, |e| e.map(|x| x.val()))),
        Cloned => one(reach(vec, t, way, salt, |e| e.cloned()).val()),
        Copied => match salt % 3 {
            0 => opt(T::copied_at(vec, t).map(|x| x.val())),
            1 => opt(T::copied_in(&vec.slice(a..b), t - a).map(|x| x.val())),
            _ => one(reach(vec, t, way, salt, |e| T::copied_of(e)).val()),
        },
        GetCloned => opt(vec.get_cloned(t).map(|x| x.val())),
        SliceGetCloned => opt(vec.slice(a..b).get_cloned(t - a).map(|x| x.val())),
        SliceFillWith => {
            vec.slice(a..b).fill_with(|i| T::make(val + i as u64));
            vec![]
        }
        SliceFill => {
            vec.slice(a..b).fill(T::make(val));
            vec![]
        }
        FillWith => {
            vec.fill_with(|i| T::make(val + i as u64));
            vec![]
        }
        Fill => {
            vec.fill(T::make(val));
            vec![]
        }
        Swap => is(vec.swap(t, o)),
        SwapBack => is(vec.swap(o, t)),
        SliceSwap => {
            let (l, h) = (t.min(o), t.max(o));
            let c = salt % (l + 1);
            is(vec.slice(c..=h).swap(o - c, t - c))
        }
        SwapSame => is(vec.swap(t, t)),
        SwapOut => is(vec.slice(a..b).swap(t - a, b - a + salt % 3)),
        IterMap => both!(s => s.iter().map(|e| e.map(|x| x.val())).collect()),
        IterCloned => both!(s => s.iter_cloned().map(|x| x.val()).collect()),
        VecMap => both!(s => s.map(|x| x.val()).collect()),
        Filter => {
            let mut seen = vec![];
            both!(s => {
                let n = s.filter(|x| x.val() != u64::MAX).count();
                seen.push(n as u64);
            });
            seen
        }
        Fold => both!(s => s.fold(vec![], |mut v, x| {
            v.push(x.val());
            v
        })),
        Reduce => {
            let mut seen = vec![];
            both!(s => {
                let r = s.reduce(|a, b| {
                    if seen.is_empty() {
                        seen.push(a.val());
                    }
                    seen.push(b.val());
                    T::make(b.val())
                });
                seen.extend(r.map(|x| x.val()));
            });
            seen
        }
        CloneToVec => both!(s => s.clone_to_vec().iter().map(|x| x.val()).collect()),
        Need::Debug => one(hash_str(&both!(s => format!("{s:?}")))),
        IndexOf => {
            let v = T::make(val);
            opt(both!(s => s.index_of(&v)).map(|i| i as u64))
        }
        Contains => {
            let v = T::make(val);
            is(both!(s => s.contains(&v)))
        }
        ElemEqElem => {
            is(if salt % 2 == 0 { vec[t] == vec[o] } else { vec[o] == vec[t] })
        }
        ElemEqValue => {
            let v = T::make(x.other[t]);
            is(reach(vec, t, way, salt, |e| *e == v))
        }
        SliceEqSlice | VecEqArray | VecEqVec | CloneVec => {
            let Some(vec) = (vec as &dyn Any).downcast_ref::<ConcurrentVec<T>>() else {
                return vec![];
            };
            match k {
                CloneVec => contents(&vec.clone()),
                VecEqArray => {
                    let v: Vec<T> = x.other[a..b].iter().map(|v| T::make(*v)).collect();
                    is(vec.slice(a..b) == v[..])
                }
                _ => {
                    let other: ConcurrentVec<T> = x.other.iter().map(|v| T::make(*v)).collect();
                    is(match (k, salt % 4) {
                        (SliceEqSlice, 0) => vec.slice(a..b) == other.slice(a..b),
                        (SliceEqSlice, 1) => other.slice(a..b) == vec.slice(a..b),
                        (SliceEqSlice, 2) => *vec == other.slice(..),
                        (SliceEqSlice, _) => vec.slice(..) == other,
                        (_, 0 | 1) => *vec == other,
                        _ => other == *vec,
                    })
                }
            }
        }
        Views => {
            let n = vec.len();
            let (l, r) = vec.split_at(t);
            let f = vec.slice(t..).split_first().map_or(99, |(_, r)| r.len() as u64 + 100);
            vec![
                n as u64, vec.is_empty() as u64, vec.iter().count() as u64, vec.as_slice().len() as u64, vec.slice(..).len() as u64,
                l.len() as u64, r.len() as u64, vec.chunks(3).map(|c| c.len() as u64).sum(), vec.get(t).is_some() as u64, f,
                vec.slice(..=t).split_last().is_some() as u64, vec.slice(t..t + 1).iter().count() as u64,
            ]
        }
        Push => one(vec.push(T::make(val)) as u64),
    }
}

fn model<T: Pay>(k: Need, x: &Args, dbl: bool, m: &mut Vec<u64>) -> Vec<u64> {
    let &Args { t, o, win, val, whole, .. } = x;
    let n = m.len();
    let (a, b) = if whole { (0, n) } else { win };
    match k {
        Set => {
            m[t] = val;
            vec![]
        }
        Replace | Update => vec![std::mem::replace(&mut m[t], val)],
        Map | Cloned | Copied | GetCloned | SliceGetCloned => vec![m[t]],
        SliceFillWith | FillWith => {
            let (a, b) = if k == FillWith { (0, n) } else { win };
            (a..b).for_each(|i| m[i] = val + (i - a) as u64);
            vec![]
        }
        SliceFill | Fill => {
            let (a, b) = if k == Fill { (0, n) } else { win };
            m[a..b].fill(val);
            vec![]
        }
        Swap | SwapBack | SliceSwap => {
            m.swap(t, o);
            vec![1]
        }
        SwapSame => vec![1],
        SwapOut => vec![0],
        IterMap | IterCloned | VecMap | Fold | CloneToVec => m[a..b].to_vec(),
        Filter => vec![(b - a) as u64],
        Reduce => match b - a {
            1 => vec![m[a]],
            _ => m[a..b].iter().copied().chain([m[b - 1]]).collect(),
        },
        Need::Debug => vec![hash_str(&format!("{:?}", m[a..b].iter().map(|v| T::make(*v)).collect::<Vec<_>>()))],
        IndexOf => m[a..b].iter().position(|v| T::same(*v, val)).map_or(vec![], |i| vec![i as u64]),
        Contains => vec![m[a..b].iter().any(|v| T::same(*v, val)) as u64],
        ElemEqElem => vec![T::same(m[t], m[o]) as u64],
        ElemEqValue => vec![T::same(m[t], x.other[t]) as u64],
        SliceEqSlice | VecEqArray | VecEqVec | CloneVec if !dbl => vec![],
        CloneVec => m.clone(),
        VecEqArray => vec![(m[win.0..win.1] == x.other[win.0..win.1]) as u64],
        SliceEqSlice if x.salt % 4 < 2 => vec![(m[win.0..win.1] == x.other[win.0..win.1]) as u64],
        SliceEqSlice | VecEqVec => vec![(*m == x.other) as u64],
        Views => {
            let n = n as u64;
            let t = t as u64;
            vec![n, 0, n, n, n, t, n - t, n, 1, n - t - 1 + 100, 1, 1]
        }
        Push => {
            m.push(val);
            vec![n as u64]
        }
    }
}

/// some rounds of one holder and one operation that needs the held element
pub fn busy<T: Pay, P: Store<T> + 'static>(ctx: &mut Ctx, rng: &mut Rng, kinds: &[Need]) {
    tok_reset();
    let n = rng.range(2, ctx.size(40, 20, 4));
    let rounds = ctx.size(12, 8, 2);
    let vec = P::build(rng, n + rounds + 2);
    let dbl = (&vec as &dyn Any).is::<ConcurrentVec<T>>();
    let mut m = prefill(&vec, n);
    for round in 0..rounds {
        gates_reset();
        set_chaos(*rng.pick(&[0, 0, 60]));
        let n = m.len();
        let t = rng.below(n);
        let o = (t + rng.range(1, n - 1)) % n;
        let cb = match T::NAME {
            "token" => rng.below(HOLDERS.len()),
            _ => *rng.pick(&CLOSURES),
        };
        let cb = if rng.chance(1, 3) { 1 } else { cb };
        let k = *rng.pick(kinds);
        let new = uniq(400, round as u64);
        let x = Args {
            t,
            o,
            win: (rng.below(t + 1), rng.range(t + 1, n)),
            way: rng.below(WAYS),
            salt: rng.below(64),
            val: uniq(401, (round * 64) as u64),
            other: match rng.below(3) {
                0 => m.clone(),
                1 => {
                    let mut o = m.clone();
                    o[t] = new;
                    o
                }
                _ => {
                    let mut o = m.clone();
                    o[t] = !new;
                    o
                }
            },
            whole: rng.bool(),
        };
        let x = Args { val: if matches!(k, IndexOf | Contains) { *rng.pick(&[x.val, m[t], new, !new, m[n - 1]]) } else { x.val }, ..x };
        let what = || format!("{} {}: {k:?} needs element {t} (window {:?} of {n}{}) while '{}' holds it", P::NAME, T::NAME, x.win, if x.whole { ", whole" } else { "" }, HOLDERS[cb]);
        let started = AtomicU32::new(0);
        let spin = match rng.below(8) {
            0..=2 => 0,
            7 => rng.below(20000),
            _ => rng.below(600),
        };
        let (vecr, mr, xr, sr) = (&vec, &m, &x, &started);
        let jobs: Vec<Job<Vec<u64>>> = vec![
            job!(move |_| {
                let left = op(HOLDERS[cb], || hold(vecr, 0, cb, t, o, (t, t + 1), mr, new));
                GATES[0].done.store(1, Release);
                vec![left]
            }),
            job!(move |_| {
                wait_for(|| GATES[0].arrived.load(Acquire) == 1 || GATES[0].done.load(Acquire) == 1);
                sr.store(1, Release);
                op("call on an element which is held", || run(vecr, k, xr))
            }),
            job!(move |_| {
                wait_for(|| sr.load(Acquire) == 1);
                for _ in 0..(if MIRI { spin % 7 } else { spin }) {
                    if MIRI {
                        std::thread::yield_now();
                    } else {
                        std::hint::spin_loop();
                    }
                }
                GATES[0].open.store(1, Release);
                vec![]
            }),
        ];
        let r = par(rng.next(), jobs);
        set_chaos(0);
        let fin = contents(&vec);
        let writes = [1, 3, 16, 17].contains(&cb);
        // the holder first
        let mut after = m.clone();
        if writes {
            after[t] = new;
        }
        let e1 = model::<T>(k, &x, dbl, &mut after);
        // or the other one first
        let mut before = m.clone();
        let e2 = model::<T>(k, &x, dbl, &mut before);
        let changes = before != m && k != Push;
        if writes {
            before[t] = new;
        }
        let first = r[1] == e1 && fin == after;
        // an update which has begun already excludes other writes
        let second = r[1] == e2 && fin == before && !(cb == 1 && changes);
        check!(
            first || second,
            "{}: it gave {:x?} and left {:?}; expected {e1:x?} and {:?}{}", what(), r[1], seq::diff(&fin, &m), seq::diff(&after, &m),
            if cb == 1 && changes { String::new() } else { format!(", or {e2:x?} and {:?}", seq::diff(&before, &m)) }
        );
        m = fin;
        // values stay distinct
        if T::NAME == "token" || !m.iter().all(|v| m.iter().filter(|w| *w == v).count() == 1) {
            for (i, v) in m.iter_mut().enumerate() {
                *v = uniq(300 + round, i as u64);
                vec[i].set(T::make(*v));
            }
        }
        ctx.count("calls_on_held_elements", 1);
        ctx.sig(hash2(hash2(hash_str(&format!("{k:?}")), cb as u64), hash2(t as u64, n as u64)));
        ctx.sample(what);
    }
    drop(vec);
    check!(T::NAME != "token" || tok_live() == 0, "{}: {} values are alive after everything was dropped", P::NAME, tok_live());
}

pub fn busy_any(ctx: &mut Ctx, rng: &mut Rng, kinds: &[Need]) {
    match rng.below(8) {
        0..=2 => any_store!(rng, busy, Tok, (ctx, rng, kinds)),
        3 => any_store!(rng, busy, u64, (ctx, rng, kinds)),
        4 => any_store!(rng, busy, Wide, (ctx, rng, kinds)),
        5 => any_store!(rng, busy, String, (ctx, rng, kinds)),
        6 => plain_store!(rng, busy, u64, (ctx, rng, kinds)),
        _ => plain_store!(rng, busy, Tok, (ctx, rng, kinds)),
    }
}
