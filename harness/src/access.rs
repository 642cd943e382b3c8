//! The different ways by which the api lets one reach an element.
use crate::*;

pub const WAYS: usize = 12;

pub fn way_name(way: usize) -> &'static str {
    [
        "vec.get", "vec[]", "vec.iter", "as_slice.get", "slice.get", "slice[]", "slice.iter",
        "split_at", "chunks", "slice.slice", "split_first/last", "iter over slice of slice",
    ][way % WAYS]
}

/// Reaches element i (which is known to be part of the vec) in one of the ways.
pub fn reach<T, P, R>(
    vec: &ConcurrentVec<T, P>,
    i: usize,
    way: usize,
    salt: usize,
    f: impl FnOnce(&ConcurrentElement<T>) -> R,
) -> R
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    let way = way % WAYS;
    fn need<X>(x: Option<X>, i: usize, way: usize) -> X {
        match x {
            Some(x) => x,
            None => violation(format!(
                "position {i} is absent by {} although it belongs to the vec",
                way_name(way)
            )),
        }
    }
    match way {
        0 => f(need(vec.get(i), i, way)),
        1 => f(&vec[i]),
        2 => f(need(vec.iter().nth(i), i, way)),
        3 => f(need(vec.as_slice().get(i), i, way)),
        4 => {
            let a = salt % (i + 1);
            f(need(vec.slice(a..).get(i - a), i, way))
        }
        5 => {
            let a = salt % (i + 1);
            f(&vec.slice(a..=i)[i - a])
        }
        6 => {
            let a = salt % (i + 1);
            f(need(vec.slice(a..i + 1).iter().last(), i, way))
        }
        7 => {
            let m = salt % (i + 3).min(vec.len() + 1);
            let (l, r) = vec.split_at(m);
            match i < m {
                true => f(need(l.get(i), i, way)),
                false => f(need(r.get(i - m), i, way)),
            }
        }
        8 => {
            let k = salt % 9 + 1;
            let c = need(vec.chunks(k).nth(i / k), i, way);
            f(need(c.get(i % k), i, way))
        }
        9 => {
            let a = salt % (i + 1);
            let s = vec.slice(a / 2..);
            let a2 = a - a / 2;
            f(need(s.slice(a2..).get(i - a), i, way))
        }
        10 => match i {
            0 => f(need(vec.split_first(), i, way).0),
            _ => {
                let s = vec.slice(..=i);
                let (last, _) = need(s.split_last(), i, way);
                f(last)
            }
        },
        _ => {
            let a = salt % (i + 1);
            let s = vec.slice(a..);
            let t = s.slice(..=(i - a));
            let r = f(need(t.iter().nth(i - a), i, way));
            r
        }
    }
}
