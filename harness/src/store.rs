//! Selection of storage strategies.
use crate::chaos::Chaos;
use crate::rng::Rng;
use orx_concurrent_vec::*;

/// Constructors of the storages which the workloads use.
pub trait Store<T>: IntoConcurrentPinnedVec<ConcurrentElement<T>> + Sized {
    const NAME: &'static str;
    /// empty vec that can hold at least `need` elements
    fn build(rng: &mut Rng, need: usize) -> ConcurrentVec<T, Self>;
    /// empty vec with a small, exact maximum capacity of at least `need`, if supported
    fn tight(_rng: &mut Rng, _need: usize) -> Option<ConcurrentVec<T, Self>> {
        None
    }
}

pub type Dbl<T> = SplitVec<ConcurrentElement<T>, Doubling>;
pub type Lin<T> = SplitVec<ConcurrentElement<T>, Linear>;
pub type Fix<T> = FixedVec<ConcurrentElement<T>>;
pub type CDbl<T> = Chaos<Dbl<T>>;
pub type CLin<T> = Chaos<Lin<T>>;
pub type CFix<T> = Chaos<Fix<T>>;

fn lin_params(rng: &mut Rng, need: usize, tight: bool) -> (usize, usize) {
    let exp = if need > 4096 { rng.range(4, 9) } else { rng.range(1, 6) };
    let frag = 1usize << exp;
    let n = need.div_ceil(frag).max(1);
    (exp, if tight { n } else { n + rng.below(4) })
}

/// fragments have capacities 4, 8, 16, ...
fn dbl_fragments(need: usize) -> usize {
    (1..).find(|k| 4 * ((1usize << k) - 1) >= need).unwrap_or(32)
}

impl<T> Store<T> for Dbl<T> {
    const NAME: &'static str = "doubling";
    fn build(_: &mut Rng, _: usize) -> ConcurrentVec<T, Self> {
        ConcurrentVec::new()
    }
    fn tight(_: &mut Rng, need: usize) -> Option<ConcurrentVec<T, Self>> {
        Some(ConcurrentVec::from(SplitVec::with_doubling_growth_and_fragments_capacity(dbl_fragments(need))))
    }
}
impl<T> Store<T> for Lin<T> {
    const NAME: &'static str = "linear";
    fn build(rng: &mut Rng, need: usize) -> ConcurrentVec<T, Self> {
        let (e, f) = lin_params(rng, need, false);
        ConcurrentVec::with_linear_growth(e, f)
    }
    fn tight(rng: &mut Rng, need: usize) -> Option<ConcurrentVec<T, Self>> {
        let (e, f) = lin_params(rng, need, true);
        Some(ConcurrentVec::with_linear_growth(e, f))
    }
}
impl<T> Store<T> for Fix<T> {
    const NAME: &'static str = "fixed";
    fn build(rng: &mut Rng, need: usize) -> ConcurrentVec<T, Self> {
        ConcurrentVec::with_fixed_capacity(need + rng.below(8))
    }
    fn tight(_: &mut Rng, need: usize) -> Option<ConcurrentVec<T, Self>> {
        Some(ConcurrentVec::with_fixed_capacity(need))
    }
}
impl<T> Store<T> for CDbl<T> {
    const NAME: &'static str = "monitored-doubling";
    fn build(_: &mut Rng, _: usize) -> ConcurrentVec<T, Self> {
        ConcurrentVec::from(Chaos(SplitVec::with_doubling_growth_and_fragments_capacity(32)))
    }
    fn tight(_: &mut Rng, need: usize) -> Option<ConcurrentVec<T, Self>> {
        let f = dbl_fragments(need);
        Some(ConcurrentVec::from(Chaos(SplitVec::with_doubling_growth_and_fragments_capacity(f))))
    }
}
impl<T> Store<T> for CLin<T> {
    const NAME: &'static str = "monitored-linear";
    fn build(rng: &mut Rng, need: usize) -> ConcurrentVec<T, Self> {
        let (e, f) = lin_params(rng, need, false);
        ConcurrentVec::from(Chaos(SplitVec::with_linear_growth_and_fragments_capacity(e, f)))
    }
    fn tight(rng: &mut Rng, need: usize) -> Option<ConcurrentVec<T, Self>> {
        let (e, f) = lin_params(rng, need, true);
        Some(ConcurrentVec::from(Chaos(
            SplitVec::with_linear_growth_and_fragments_capacity(e, f),
        )))
    }
}
impl<T> Store<T> for CFix<T> {
    const NAME: &'static str = "monitored-fixed";
    fn build(rng: &mut Rng, need: usize) -> ConcurrentVec<T, Self> {
        ConcurrentVec::from(Chaos(FixedVec::new(need + rng.below(8))))
    }
    fn tight(_: &mut Rng, need: usize) -> Option<ConcurrentVec<T, Self>> {
        Some(ConcurrentVec::from(Chaos(FixedVec::new(need))))
    }
}

/// calls `$f::<$t, P>($args)` with a storage chosen by the rng
#[macro_export]
macro_rules! any_store {
    ($rng:expr, $f:ident, $t:ty, ($($a:expr),*)) => {
        match $rng.below(8) {
            0 => $f::<$t, $crate::Dbl<$t>>($($a),*),
            1 => $f::<$t, $crate::Lin<$t>>($($a),*),
            2 => $f::<$t, $crate::Fix<$t>>($($a),*),
            3 | 4 => $f::<$t, $crate::CDbl<$t>>($($a),*),
            5 | 6 => $f::<$t, $crate::CLin<$t>>($($a),*),
            _ => $f::<$t, $crate::CFix<$t>>($($a),*),
        }
    };
}
/// as `any_store`, without the monitored storages
#[macro_export]
macro_rules! plain_store {
    ($rng:expr, $f:ident, $t:ty, ($($a:expr),*)) => {
        match $rng.below(3) {
            0 => $f::<$t, $crate::Dbl<$t>>($($a),*),
            1 => $f::<$t, $crate::Lin<$t>>($($a),*),
            _ => $f::<$t, $crate::Fix<$t>>($($a),*),
        }
    };
}
/// as `any_store` for functions which are generic over the storage only
#[macro_export]
macro_rules! any_store2 {
    ($rng:expr, $f:ident, $t:ty, ($($a:expr),*)) => {
        match $rng.below(8) {
            0 => $f::<$crate::Dbl<$t>>($($a),*),
            1 => $f::<$crate::Lin<$t>>($($a),*),
            2 => $f::<$crate::Fix<$t>>($($a),*),
            3 | 4 => $f::<$crate::CDbl<$t>>($($a),*),
            5 | 6 => $f::<$crate::CLin<$t>>($($a),*),
            _ => $f::<$crate::CFix<$t>>($($a),*),
        }
    };
}
