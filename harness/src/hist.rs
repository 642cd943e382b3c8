//! Offline oracles over recorded histories.
use crate::ctx::violation;
use std::collections::HashMap;

/// One completed operation on a single element.
#[derive(Clone, Copy, Debug)]
pub struct ElemOp {
    pub thread: u32,
    pub inv: u64,
    pub ret: u64,
    pub kind: OpKind,
    pub name: &'static str,
}
/// Values are unique: a write that knows what it overwrote determines its predecessor.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Read { seen: u64 },
    Write { old: u64, new: u64 },
    /// a write which does not know what it overwrote
    Blind { new: u64 },
}

/// Decides whether the history of one element is linearizable. A write that knows what it overwrote
/// directly follows the write of that value, hence the writes form blocks: chains that start with the
/// initial value or with a blind write. Within a block the order is given; among blocks (whose values
/// are distinct) the forced order must have no cycle, for which pairs suffice (Gibbons and Korach).
/// Returns the number of overlapping pairs of operations of different threads (a measure of contention).
pub fn check_element(what: &str, init: u64, fin: u64, ops: &[ElemOp]) -> u64 {
    let mut succ: HashMap<u64, (usize, u64)> = HashMap::with_capacity(ops.len());
    let mut writes = 0;
    let mut starts = vec![init];
    for (k, o) in ops.iter().enumerate() {
        match o.kind {
            OpKind::Write { old, new } => {
                writes += 1;
                if let Some((k2, new2)) = succ.insert(old, (k, new)) {
                    violation(format!(
                        "{what}: value {old:x} was overwritten twice: by {:?} (new {new2:x}) and by {:?} (new {new:x}); one update is lost",
                        ops[k2], o
                    ));
                }
            }
            OpKind::Blind { new } => {
                writes += 1;
                starts.push(new);
            }
            OpKind::Read { .. } => {}
        }
    }
    // value -> (block, position in the block)
    let mut pos: HashMap<u64, (usize, u64)> = HashMap::with_capacity(writes + 1);
    let mut n = 0;
    for (b, s) in starts.iter().enumerate() {
        let mut cur = *s;
        let mut k = 0;
        loop {
            if pos.insert(cur, (b, k)).is_some() {
                violation(format!("{what}: value {cur:x} became current twice"));
            }
            n += (b > 0 || k > 0) as usize;
            k += 1;
            match succ.get(&cur) {
                Some((_, next)) => cur = *next,
                None => break,
            }
        }
    }
    if n != writes {
        let orphan = ops.iter().find(
            |o| matches!(o.kind, OpKind::Write { old, .. } if !pos.contains_key(&old)),
        );
        violation(format!(
            "{what}: {} of {writes} writes are not part of the chains of values from stored ones; e.g. {orphan:x?}",
            writes - n
        ));
    }
    if !pos.contains_key(&fin) || succ.contains_key(&fin) {
        violation(format!(
            "{what}: the final value is {fin:x}, which is not a last one that was stored"
        ));
    }
    let p = |o: &ElemOp| -> (usize, u64, bool) {
        let (v, w) = match o.kind {
            OpKind::Read { seen } => (seen, false),
            OpKind::Write { new, .. } | OpKind::Blind { new } => (new, true),
        };
        match pos.get(&v) {
            Some((b, p)) => (*b, *p, w),
            None => violation(format!(
                "{what}: {o:x?} observed a value which was never stored in this element"
            )),
        }
    };
    let end = ElemOp { thread: u32::MAX, inv: u64::MAX, ret: u64::MAX, kind: OpKind::Read { seen: fin }, name: "final value" };
    let mut blocks: Vec<Vec<&ElemOp>> = vec![vec![]; starts.len()];
    for o in ops.iter().chain([&end]) {
        blocks[p(o).0].push(o);
    }
    // real-time order along each block
    for ops in &blocks {
        let mut by_inv = ops.clone();
        by_inv.sort_by_key(|o| o.inv);
        let mut by_ret = ops.clone();
        by_ret.sort_by_key(|o| o.ret);
        let mut done: Option<(u64, &ElemOp)> = None;
        let mut r = 0;
        for o in &by_inv {
            while r < by_ret.len() && by_ret[r].ret < o.inv {
                let q = p(by_ret[r]).1;
                if done.map_or(true, |(d, _)| q > d) {
                    done = Some((q, by_ret[r]));
                }
                r += 1;
            }
            let (_, q, w) = p(o);
            if let Some((d, j)) = done {
                if d > q || (w && d >= q) {
                    violation(format!(
                        "{what}: not linearizable: {j:x?} (version {d}) completed before {o:x?} (version {q}) was called"
                    ));
                }
            }
        }
    }
    // among blocks: first return and last call; the initial value was there before everything
    let zone: Vec<Option<(u64, u64)>> = blocks
        .iter()
        .enumerate()
        .map(|(b, ops)| {
            let first = if b == 0 { Some(0) } else { ops.iter().map(|o| o.ret).min() };
            let last = ops.iter().map(|o| o.inv).max().unwrap_or(0);
            first.map(|f| (f, last))
        })
        .collect();
    for a in 0..zone.len() {
        for b in 0..a {
            if let (Some((fa, la)), Some((fb, lb))) = (zone[a], zone[b]) {
                if fa < lb && fb < la {
                    violation(format!(
                        "{what}: not linearizable: the value {:x} and its successors were current both before and after the value {:x} and its successors (operations {:x?} and {:x?})",
                        starts[a], starts[b], blocks[a].iter().take(4).collect::<Vec<_>>(), blocks[b].iter().take(4).collect::<Vec<_>>()
                    ));
                }
            }
        }
    }
    let mut by_inv: Vec<&ElemOp> = ops.iter().collect();
    by_inv.sort_by_key(|o| o.inv);
    let mut overlaps = 0;
    for w in by_inv.windows(2) {
        if w[0].thread != w[1].thread && w[0].ret > w[1].inv {
            overlaps += 1;
        }
    }
    overlaps
}

/// One completed growth call.
#[derive(Clone, Debug)]
pub struct Grown {
    pub thread: usize,
    pub kind: &'static str,
    pub inv: u64,
    pub ret: u64,
    pub begin: usize,
    pub vals: Vec<u64>,
    /// time at which each value was produced (not before: the position cannot be written earlier)
    pub born: Vec<u64>,
}

/// Each value is at the position its call returned, positions are a partition of init.len()..len, and
/// positions respect the real-time order of calls.
pub fn check_growth(what: &str, contents: &[u64], init: &[u64], ops: &[Grown]) {
    let total: usize = ops.iter().map(|o| o.vals.len()).sum();
    let mut owner: Vec<Option<usize>> = vec![None; init.len() + total];
    for (k, o) in ops.iter().enumerate() {
        for (j, v) in o.vals.iter().enumerate() {
            let i = o.begin + j;
            if i < init.len() || i >= owner.len() {
                violation(format!(
                    "{what}: {} by thread {} of {} values returned position {} which is outside of the {}..{} positions that exist",
                    o.kind, o.thread, o.vals.len(), o.begin, init.len(), owner.len()
                ));
            }
            if let Some(k2) = owner[i] {
                violation(format!(
                    "{what}: position {i} is given to two calls: {} by thread {} (begin {}) and {} by thread {} (begin {})",
                    ops[k2].kind, ops[k2].thread, ops[k2].begin, o.kind, o.thread, o.begin
                ));
            }
            owner[i] = Some(k);
            match contents.get(i) {
                Some(c) if c == v => {}
                c => violation(format!(
                    "{what}: {} by thread {} returned begin {}; its item {j} of {} must be {v:x} at position {i}, found {c:x?}",
                    o.kind, o.thread, o.begin, o.vals.len()
                )),
            }
        }
    }
    if contents.len() != owner.len() {
        violation(format!(
            "{what}: {} values were added to {} initial ones, but the final length is {}",
            total,
            init.len(),
            contents.len()
        ));
    }
    if contents[..init.len()] != *init {
        violation(format!("{what}: initial values changed during growth"));
    }
    check_growth_order(what, ops);
}

pub fn check_growth_order(what: &str, ops: &[Grown]) {
    let mut by_inv: Vec<&Grown> = ops.iter().filter(|o| !o.vals.is_empty()).collect();
    let mut by_ret = by_inv.clone();
    by_inv.sort_by_key(|o| o.inv);
    by_ret.sort_by_key(|o| o.ret);
    let mut r = 0;
    let mut max: Option<&Grown> = None;
    for o in by_inv {
        while r < by_ret.len() && by_ret[r].ret < o.inv {
            if max.map_or(true, |m| by_ret[r].begin > m.begin) {
                max = Some(by_ret[r]);
            }
            r += 1;
        }
        if let Some(m) = max {
            if m.begin > o.begin {
                violation(format!(
                    "{what}: {} of thread {} got position {} although {} of thread {} with the later position {} had returned before it was called",
                    o.kind, o.thread, o.begin, m.kind, m.thread, m.begin
                ));
            }
        }
    }
}

/// Number of changes of the owning thread along the positions and a hash of the ownership order.
pub fn interleaving(ops: &[Grown]) -> (u64, u64) {
    let mut v: Vec<(usize, usize)> = ops
        .iter()
        .filter(|o| !o.vals.is_empty())
        .map(|o| (o.begin, o.thread))
        .collect();
    v.sort();
    let mut h = 0xABCD;
    let mut switches = 0;
    for w in v.windows(2) {
        if w[0].1 != w[1].1 {
            switches += 1;
        }
    }
    for x in &v {
        h = crate::rng::hash2(h, x.1 as u64);
    }
    (switches, h)
}

/// One observation of the length.
#[derive(Clone, Copy, Debug)]
pub struct LenObs {
    pub thread: usize,
    pub t0: u64,
    pub t1: u64,
    pub n: usize,
    pub how: &'static str,
    /// the observation is a lower bound only (e.g. an element was found at n - 1)
    pub at_least: bool,
}

/// Sandwich check of length observations against the growth history: positions completely written
/// before t0 as a prefix <= n <= positions whose values existed before t1 as a prefix; and monotone.
pub fn check_len(what: &str, init: usize, ops: &[Grown], obs: &[LenObs]) -> u64 {
    let total: usize = init + ops.iter().map(|o| o.vals.len()).sum::<usize>();
    let mut done = vec![0u64; total];
    let mut born = vec![0u64; total];
    for o in ops {
        for j in 0..o.vals.len() {
            if o.begin + j < total {
                done[o.begin + j] = o.ret;
                born[o.begin + j] = o.born[j];
            }
        }
    }
    // prefix maxima: all of 0..=k were done / born by that time
    for k in 1..total {
        done[k] = done[k].max(done[k - 1]);
        born[k] = born[k].max(born[k - 1]);
    }
    let mut tight = 0;
    for o in obs {
        let lo = done.partition_point(|&d| d < o.t0);
        let hi = born.partition_point(|&b| b <= o.t1);
        if o.n < lo && !o.at_least {
            violation(format!(
                "{what}: {} of thread {} reported {} although all growth calls of the positions 0..{lo} had returned before it was called",
                o.how, o.thread, o.n
            ));
        }
        if o.n > hi {
            violation(format!(
                "{what}: {} of thread {} reported {} although only the values of positions 0..{hi} had been produced when it returned",
                o.how, o.thread, o.n
            ));
        }
        if lo == hi {
            tight += 1;
        }
    }
    // monotone in real time
    let mut by_inv: Vec<&LenObs> = obs.iter().filter(|o| !o.at_least).collect();
    let mut by_ret: Vec<&LenObs> = obs.iter().collect();
    by_inv.sort_by_key(|o| o.t0);
    by_ret.sort_by_key(|o| o.t1);
    let mut r = 0;
    let mut max: Option<&LenObs> = None;
    for o in by_inv {
        while r < by_ret.len() && by_ret[r].t1 < o.t0 {
            if max.map_or(true, |m| by_ret[r].n > m.n) {
                max = Some(by_ret[r]);
            }
            r += 1;
        }
        if let Some(m) = max {
            if m.n > o.n {
                violation(format!(
                    "{what}: the length decreased: {} of thread {} gave {}, later {} of thread {} gave {}",
                    m.how, m.thread, m.n, o.how, o.thread, o.n
                ));
            }
        }
    }
    tight
}
