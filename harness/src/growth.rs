//! Growth workload shared by several monitors.
use crate::*;
use std::cell::{Cell, RefCell};

pub const KINDS: [&str; 5] = [
    "push",
    "push_for_idx",
    "extend",
    "extend_for_idx",
    "extend_n_items",
];

#[derive(Clone, Copy)]
pub struct GrowCfg {
    /// share of batch calls in percent
    pub batches: usize,
    pub max_batch: usize,
    /// delays inside of closures and iterators
    pub slow_items: bool,
}

/// Performs one growth call with fresh values given by `next`.
pub fn grow_once<T: Pay, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(
    vec: &ConcurrentVec<T, P>,
    kind: usize,
    n: usize,
    slow: bool,
    thread: usize,
    mut next: impl FnMut() -> u64,
) -> Grown {
    let n = if kind < 2 { 1 } else { n };
    let vals: Vec<u64> = (0..n).map(|_| next()).collect();
    let born = RefCell::new(Vec::with_capacity(n));
    let item = |v: u64| -> T {
        if slow {
            user(chaos_point);
        }
        let t = T::make(v);
        born.borrow_mut().push(now());
        t
    };
    let seen_idx = Cell::new(usize::MAX);
    let calls = Cell::new(0);
    let inv = now();
    let begin = match kind {
        0 => {
            let v = item(vals[0]);
            op("push", || vec.push(v))
        }
        1 => op("push_for_idx", || {
            vec.push_for_idx(|i| {
                seen_idx.set(i);
                calls.set(calls.get() + 1);
                item(vals[0])
            })
        }),
        2 => op("extend", || {
            vec.extend(ExactIter {
                it: vals.iter().map(|v| item(*v)),
                n,
            })
        }),
        3 => op("extend_for_idx", || {
            vec.extend_for_idx(
                |i| {
                    seen_idx.set(i);
                    calls.set(calls.get() + 1);
                    ExactIter {
                        it: vals.iter().map(|v| item(*v)),
                        n,
                    }
                },
                n,
            )
        }),
        _ => op("extend_n_items", || {
            // the iterator might be longer than requested
            let extra = if n % 3 == 0 { 2 } else { 0 };
            vec.extend_n_items(
                vals.iter()
                    .map(|v| item(*v))
                    .chain((0..extra).map(|k| T::make(u64::MAX - k))),
                n,
            )
        }),
    };
    let ret = now();
    if kind == 1 || kind == 3 {
        check!(
            calls.get() == 1,
            "{}: the closure was called {} times",
            KINDS[kind],
            calls.get()
        );
        check!(
            seen_idx.get() == begin,
            "{}: the closure was told position {} but the call returned {begin}",
            KINDS[kind],
            seen_idx.get()
        );
    }
    let mut born = born.into_inner();
    // values that are moved by the iterator before they are asked for do not exist
    while born.len() < n {
        born.push(ret);
    }
    Grown {
        thread,
        kind: KINDS[kind],
        inv,
        ret,
        begin,
        vals,
        born,
    }
}

/// iterator with an exact length
pub struct ExactIter<I> {
    pub it: I,
    pub n: usize,
}
impl<I: Iterator> Iterator for ExactIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.n = self.n.saturating_sub(1);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.n, Some(self.n))
    }
}
impl<I: Iterator> ExactSizeIterator for ExactIter<I> {}

pub fn contents<T: Pay, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(
    vec: &ConcurrentVec<T, P>,
) -> Vec<u64> {
    vec.iter().map(|e| e.map(|x| x.val())).collect()
}

pub fn uniq(thread: usize, k: u64) -> u64 {
    ((thread as u64 + 1) << 32) | k
}

/// plans how many calls of which kind and size a thread makes
pub fn plan(rng: &mut Rng, cfg: &GrowCfg, calls: usize) -> Vec<(usize, usize)> {
    (0..calls)
        .map(|_| {
            if rng.below(100) < cfg.batches {
                let n = match rng.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => cfg.max_batch,
                    _ => rng.below(cfg.max_batch + 1),
                };
                (rng.range(2, 4), n)
            } else {
                (rng.below(2), 1)
            }
        })
        .collect()
}

pub fn plan_size(plan: &[(usize, usize)]) -> usize {
    plan.iter().map(|(k, n)| if *k < 2 { 1 } else { *n }).sum()
}

/// pre-fills a vec sequentially
pub fn prefill<T: Pay, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(
    vec: &ConcurrentVec<T, P>,
    n: usize,
) -> Vec<u64> {
    (0..n)
        .map(|k| {
            let v = uniq(1 << 20, k as u64);
            vec.push(T::make(v));
            v
        })
        .collect()
}
