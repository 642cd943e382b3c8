//! Growth calls that give up leave positions behind which are never written; the values behind such
//! gaps are part of the vec like all the others.
use crate::growth::*;
use crate::*;

/// what is stored at position i by all means of access, of which those that are about the elements of the vec
/// need not see what is behind a gap
fn at<T: Pay, P: Store<T>>(vec: &ConcurrentVec<T, P>, i: usize, rng: &mut Rng) -> (Option<u64>, &'static str, bool) {
    let x = |p: *const T| unsafe { (*p).val() };
    match rng.below(7) {
        0 | 1 => (vec.get_raw(i).map(x), "get_raw", true),
        2 | 3 => (vec.get_raw_mut(i).map(|p| x(p)), "get_raw_mut", true),
        4 => (unsafe { vec.get_ref(i) }.map(|v| v.val()), "get_ref", false),
        5 => (T::copied_at(vec, i).map(|v| v.val()), "get_copied", false),
        _ => (vec.get_cloned(i).map(|v| v.val()), "get_cloned", false),
    }
}

fn sub(rng: &mut Rng, n: usize) -> (usize, usize) {
    let a = rng.below(n + 1);
    (a, a + rng.below(n - a + 1))
}

pub fn gaps<T: Pay, P: Store<T>>(ctx: &mut Ctx, rng: &mut Rng) {
    tok_reset();
    let track = T::NAME == "token";
    let batch = *rng.pick(&[1, 4, ctx.size(40, 20, 5)]);
    let rounds = rng.range(2, ctx.size(14, 8, 4));
    let mut vec = P::build(rng, (rounds + 1) * 4 * (batch + 1) + 2);
    let mut max = vec.maximum_capacity();
    let mut pos: Vec<Option<u64>> = vec![];
    let mut k = rng.next() >> 30;
    let mut log: Vec<String> = vec![];
    let mut h = hash_str(P::NAME);
    for _ in 0..rounds {
        // growth, some calls of which give up before they have made a value
        for _ in 0..rng.below(4) {
            let n = rng.range(1, batch);
            let mut vals = || -> Vec<u64> {
                (0..n).map(|_| { k += 1; k }).collect()
            };
            match rng.below(4) {
                0 => {
                    let r = injected(|| vec.push_for_idx(|_| inject(3)));
                    check!(r.is_none(), "{}: the panic of the closure of push_for_idx did not reach its caller", P::NAME);
                    log.push("panic in push_for_idx".into());
                }
                1 => {
                    let r = injected(|| vec.extend_for_idx(|_| -> Vec<T> { inject(4) }, n));
                    check!(r.is_none(), "{}: the panic of the closure of extend_for_idx did not reach its caller", P::NAME);
                    log.push(format!("panic in extend_for_idx of {n}"));
                }
                x => {
                    let v = vals();
                    let items = v.iter().map(|v| T::make(*v)).collect::<Vec<_>>();
                    let i = match x {
                        2 => vec.extend(items),
                        _ => vec.extend_n_items(items, n),
                    };
                    check!(i >= pos.len(), "{}: an extension got position {i} after {:?}", P::NAME, log);
                    pos.resize(i, None);
                    pos.extend(v.into_iter().map(Some));
                    log.push(format!("{n} at {i}"));
                }
            }
            h = hash2(h, n as u64);
        }
        let gap = pos.iter().any(|p| p.is_none());
        let written = pos.iter().flatten().count();
        let w = format!("{} {} after {:?}", P::NAME, T::NAME, &log[log.len().saturating_sub(9)..]);
        match rng.below(6) {
            0 | 1 => {
                vec.clear();
                check!(!track || tok_live() == 0, "{w}: {} of {written} values are alive after clear", tok_live());
                let m = vec.maximum_capacity();
                check!(m == max, "{w}: the maximum capacity {max} became {m} by clear");
                check!(vec.len() == 0 && vec.is_empty() && vec.iter().next().is_none(), "{w}: the vec is not empty after clear");
                for i in 0..pos.len() {
                    let (x, how, _) = at(&vec, i, rng);
                    check!(x.is_none(), "{w}: {how} of {i} gives {x:x?} after clear");
                }
                check!(unsafe { vec.iter_ref().next().is_none() }, "{w}: iter_ref yields a value after clear");
                ctx.count("clears", 1);
                if gap {
                    ctx.count("clears_with_gaps", 1);
                }
                pos.clear();
                log = vec!["clear".into()];
            }
            2 => {
                let want = match rng.below(3) {
                    0 => rng.below(max.min(4000) + 1),
                    1 => max.min(4000) + rng.below(40),
                    _ => pos.len() + rng.below(300),
                };
                let r = vec.reserve_maximum_capacity(want);
                check!(r >= want && r >= max && r == vec.maximum_capacity(), "{w}: reserving {want} gives {r}, the maximum was {max} and is {}", vec.maximum_capacity());
                max = r;
                ctx.count("reserves", 1);
                log.push(format!("reserve {want}"));
            }
            _ => {}
        }
        // every value is where it was put, and counted if there is no gap before it
        let w = format!("{} {} after {:?}", P::NAME, T::NAME, &log[log.len().saturating_sub(9)..]);
        let n = pos.iter().position(|p| p.is_none()).unwrap_or(pos.len());
        for (i, p) in pos.iter().enumerate() {
            let (x, how, direct) = at(&vec, i, rng);
            check!(x == *p || (x.is_none() && i > n && !direct), "{w}: {how} of {i} gives {x:x?} instead of {p:x?}");
        }
        check!(vec.len() == n, "{w}: the length is {} instead of {n}", vec.len());
        let c = contents(&vec);
        check!(c.iter().copied().map(Some).eq(pos[..n].iter().copied()), "{w}: the contents are {c:x?}");
        // values behind a gap take no part in anything that is about the elements
        let m = pos.len();
        match rng.below(8) {
            0 | 1 if m > 0 => {
                let (i, j) = (rng.below(m + 2), rng.below(m + 2));
                let (a, b) = if rng.bool() { (0, n) } else { sub(rng, n) };
                let ok = if (a, b) == (0, n) { vec.swap(i, j) } else { vec.slice(a..b).swap(i, j) };
                let x = i < b - a && j < b - a;
                check!(ok == x, "{w}: swap({i}, {j}) in {a}..{b} of {n} elements returned {ok}");
                if ok {
                    pos.swap(a + i, a + j);
                }
                ctx.count("swaps_around_gaps", (gap && !ok) as u64);
                log.push(format!("swap {i} {j} of {a}..{b}"));
            }
            2 => {
                let (a, b) = sub(rng, n);
                let all = rng.bool();
                let (a, b) = if all { (0, n) } else { (a, b) };
                let kind = rng.below(2);
                k += 1;
                let v = k;
                match (kind, all) {
                    (0, true) => vec.fill(T::make(v)),
                    (0, false) => vec.slice(a..b).fill(T::make(v)),
                    (_, true) => vec.fill_with(|_| T::make(v)),
                    (_, false) => vec.slice(a..b).fill_with(|_| T::make(v)),
                }
                pos[a..b].fill(Some(v));
                ctx.count("fills_before_gaps", gap as u64);
                log.push(format!("fill {a}..{b}"));
            }
            3 => {
                if let Some((i, v)) = pos.iter().enumerate().skip(n).find_map(|(i, p)| p.map(|v| (i, v))) {
                    let v = T::make(v);
                    let r = (vec.index_of(&v), vec.contains(&v), vec.slice(..).index_of(&v));
                    check!(r == (None, false, None), "{w}: looking for the value at {i}, which is behind a gap: {r:?}");
                    ctx.count("queries_before_gaps", 1);
                }
            }
            4 => {
                let (a, b) = sub(rng, n);
                let c: Vec<u64> = vec.clone_to_vec().iter().map(|x| x.val()).collect();
                let d: Vec<u64> = vec.slice(a..b).clone_to_vec().iter().map(|x| x.val()).collect();
                let want: Vec<u64> = pos[..n].iter().map(|p| p.unwrap()).collect();
                check!(c == want && d == want[a..b], "{w}: copies {c:x?} and (of {a}..{b}) {d:x?} instead of {want:x?}");
                ctx.count("queries_before_gaps", gap as u64);
            }
            _ => {}
        }
        let written = pos.iter().flatten().count();
        check!(!track || tok_live() == written as i64, "{w}: {} values are alive instead of {written}", tok_live());
        if gap {
            ctx.count("values_behind_gaps", pos[n..].iter().flatten().count() as u64);
        }
    }
    let written = pos.iter().flatten().count();
    let end = rng.below(5);
    let how = ["drop", "drop", "into_inner", "to_vec", "into_iter"][end];
    match end {
        2 => {
            let p = vec.into_inner();
            check!(p.len() >= pos.len(), "{} after {log:?}: into_inner has length {} instead of {}", P::NAME, p.len(), pos.len());
            check!(!track || tok_live() == written as i64, "{} after {log:?}: {} of {written} values are alive after into_inner", P::NAME, tok_live());
            for (i, e) in p.iter().enumerate() {
                if let Some(Some(v)) = pos.get(i) {
                    let x = e.map(|x| x.val());
                    check!(x == *v, "{} after {log:?}: into_inner has {x:x} at {i} instead of {v:x}", P::NAME);
                    ctx.count("values_converted_with_gaps", (i >= pos.iter().position(|p| p.is_none()).unwrap_or(i + 1)) as u64);
                }
            }
        }
        // these need not accept gaps
        3 => {
            if let Some(v) = panics(|| vec.to_vec()) {
                check!(v.iter().map(|x| x.val()).eq(pos.iter().flatten().copied()), "{} after {log:?}: to_vec gives {} values", P::NAME, v.len());
            }
        }
        4 => {
            let mut n = 0;
            let all: Vec<u64> = pos.iter().flatten().copied().collect();
            panics(|| {
                for x in vec.into_iter() {
                    check!(all.get(n) == Some(&x.val()), "{} after {log:?}: into_iter yields {:x} at {n}", P::NAME, x.val());
                    n += 1;
                }
            });
            check!(n >= pos.iter().position(|p| p.is_none()).unwrap_or(pos.len()), "{} after {log:?}: into_iter yields {n} values", P::NAME);
        }
        _ => drop(vec),
    }
    check!(!track || tok_live() == 0, "{} after {log:?}: {} of {written} values are alive after {how}", P::NAME, tok_live());
    ctx.sig(h);
    ctx.sample(|| format!("{} {}: {log:?}", P::NAME, T::NAME));
}

pub fn gaps_any(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.below(4) {
        0 => any_store!(rng, gaps, u64, (ctx, rng)),
        1 => plain_store!(rng, gaps, String, (ctx, rng)),
        _ => any_store!(rng, gaps, Tok, (ctx, rng)),
    }
}
