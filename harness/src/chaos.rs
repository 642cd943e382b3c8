//! A pinned storage which delegates to a real one, checks the storage contract and injects delays
//! at every call that the concurrent vec makes to it.
use crate::ctx::{chaos_point, violation};
use orx_concurrent_vec::{ConcurrentPinnedVec, IntoConcurrentPinnedVec, PinnedVec, PinnedVecGrowthError};
use orx_pinned_vec::CapacityState;
use orx_pseudo_default::PseudoDefault;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::ops::{Bound, Index, IndexMut, Range, RangeBounds};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::{Acquire, Relaxed, Release}};

/// delegating pinned vector
pub struct Chaos<V>(pub V);

pub struct ChaosCon<C> {
    inner: C,
    growing: AtomicBool,
    /// capacity as it is visible to the concurrent vec: published as the last step of growth
    published: AtomicUsize,
    /// threads currently inside a shared call of the storage
    shared: AtomicUsize,
}

pub static GROWTHS: AtomicU64 = AtomicU64::new(0);
pub static ACCESSES: AtomicU64 = AtomicU64::new(0);
pub static GROW_WHILE_SHARED: AtomicU64 = AtomicU64::new(0);
pub static EXCLUSIVE: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static GROWTH_LOG: RefCell<Option<Vec<(usize, usize)>>> = const { RefCell::new(None) };
}
/// starts recording the growth requests of this thread as (allocated capacity, requested capacity)
pub fn growth_log_start() {
    GROWTH_LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn growth_log_take() -> Vec<(usize, usize)> {
    GROWTH_LOG.with(|l| l.borrow_mut().as_mut().map(std::mem::take).unwrap_or_default())
}
/// how much more than requested the storage grows by, at most
pub static GREED: AtomicUsize = AtomicUsize::new(0);

/// the next growth request of any monitored storage waits at this gate (usize::MAX: none)
pub static GROWTH_GATE: AtomicUsize = AtomicUsize::new(usize::MAX);

pub fn storage_counters() -> [u64; 4] {
    [
        GROWTHS.load(Relaxed),
        ACCESSES.load(Relaxed),
        GROW_WHILE_SHARED.load(Relaxed),
        EXCLUSIVE.load(Relaxed),
    ]
}

fn limits<R: RangeBounds<usize>>(r: &R, cap: usize) -> (usize, usize) {
    let a = match r.start_bound() {
        Bound::Included(a) => *a,
        Bound::Excluded(a) => a.saturating_add(1),
        Bound::Unbounded => 0,
    };
    let b = match r.end_bound() {
        Bound::Included(b) => b.saturating_add(1),
        Bound::Excluded(b) => *b,
        Bound::Unbounded => cap,
    };
    (a, b)
}

struct Shared<'a>(&'a AtomicUsize);
impl Drop for Shared<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Relaxed);
    }
}

impl<C> ChaosCon<C> {
    fn over<T>(inner: C) -> Self
    where
        C: ConcurrentPinnedVec<T>,
    {
        ChaosCon {
            published: AtomicUsize::new(inner.capacity()),
            inner,
            growing: AtomicBool::new(false),
            shared: AtomicUsize::new(0),
        }
    }
    fn shared(&self) -> Shared<'_> {
        self.shared.fetch_add(1, Relaxed);
        ACCESSES.fetch_add(1, Relaxed);
        chaos_point();
        Shared(&self.shared)
    }
    fn in_bounds<T>(&self, what: &str, a: usize, b: usize)
    where
        C: ConcurrentPinnedVec<T>,
    {
        let cap = self.published.load(Acquire);
        if b > a && b > cap {
            violation(format!(
                "storage contract: {what} asked for positions {a}..{b} while the allocated capacity is {cap}"
            ));
        }
    }
    fn exclusive(&self, what: &str) {
        EXCLUSIVE.fetch_add(1, Relaxed);
        if self.shared.load(Relaxed) != 0 || self.growing.load(Relaxed) {
            violation(format!(
                "storage contract: exclusive request {what} while shared requests are running"
            ));
        }
    }
    fn grow<T, R>(&self, new_capacity: usize, f: impl FnOnce(usize) -> R) -> R
    where
        C: ConcurrentPinnedVec<T>,
    {
        if self.growing.swap(true, Relaxed) {
            violation("storage contract: two growth requests are in flight at the same time");
        }
        GROWTHS.fetch_add(1, Relaxed);
        if self.shared.load(Relaxed) > 1 {
            GROW_WHILE_SHARED.fetch_add(1, Relaxed);
        }
        if new_capacity > self.inner.max_capacity() {
            violation(format!(
                "storage contract: growth to {new_capacity} requested, beyond the maximum capacity {}",
                self.inner.max_capacity()
            ));
        }
        let old = self.inner.capacity();
        let published = self.published.load(Acquire);
        if old != published {
            violation(format!(
                "storage contract: growth to {new_capacity} requested while the capacity {old} of the previous growth is not published yet, which was {published} before"
            ));
        }
        GROWTH_LOG.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                l.push((old, new_capacity));
            }
        });
        let more = match GREED.load(Relaxed) {
            0 => 0,
            g => (crate::mix(old as u64) as usize) % g,
        };
        let max = self.inner.max_capacity();
        let gate = GROWTH_GATE.swap(usize::MAX, Relaxed);
        if gate != usize::MAX {
            crate::pay::stall_at(gate);
        }
        chaos_point();
        let r = f(new_capacity.saturating_add(more).min(max.max(new_capacity)));
        chaos_point();
        if !self.growing.swap(false, Relaxed) {
            violation("storage contract: two growth requests were in flight at the same time");
        }
        self.published.store(self.inner.capacity(), Release);
        chaos_point();
        r
    }
}

/// iterator with delays between its steps
pub struct ChaosIter<I>(I);
impl<I: Iterator> Iterator for ChaosIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        chaos_point();
        self.0.next()
    }
}

impl<V: PseudoDefault> PseudoDefault for Chaos<V> {
    fn pseudo_default() -> Self {
        Chaos(V::pseudo_default())
    }
}
impl<V: IntoIterator> IntoIterator for Chaos<V> {
    type Item = V::Item;
    type IntoIter = V::IntoIter;
    fn into_iter(self) -> V::IntoIter {
        self.0.into_iter()
    }
}
impl<V: Index<usize>> Index<usize> for Chaos<V> {
    type Output = V::Output;
    fn index(&self, i: usize) -> &V::Output {
        &self.0[i]
    }
}
impl<V: IndexMut<usize>> IndexMut<usize> for Chaos<V> {
    fn index_mut(&mut self, i: usize) -> &mut V::Output {
        &mut self.0[i]
    }
}

impl<T, V: PinnedVec<T>> PinnedVec<T> for Chaos<V> {
    type Iter<'a>
        = V::Iter<'a>
    where
        T: 'a,
        Self: 'a;
    type IterMut<'a>
        = V::IterMut<'a>
    where
        T: 'a,
        Self: 'a;
    type IterRev<'a>
        = V::IterRev<'a>
    where
        T: 'a,
        Self: 'a;
    type IterMutRev<'a>
        = V::IterMutRev<'a>
    where
        T: 'a,
        Self: 'a;
    type SliceIter<'a>
        = V::SliceIter<'a>
    where
        T: 'a,
        Self: 'a;
    type SliceMutIter<'a>
        = V::SliceMutIter<'a>
    where
        T: 'a,
        Self: 'a;

    fn index_of(&self, e: &T) -> Option<usize> {
        self.0.index_of(e)
    }
    fn index_of_ptr(&self, p: *const T) -> Option<usize> {
        self.0.index_of_ptr(p)
    }
    fn push_get_ptr(&mut self, v: T) -> *const T {
        self.0.push_get_ptr(v)
    }
    unsafe fn iter_ptr<'v, 'i>(&'v self) -> impl Iterator<Item = *const T> + 'i
    where
        T: 'i,
    {
        self.0.iter_ptr()
    }
    unsafe fn iter_ptr_rev<'v, 'i>(&'v self) -> impl Iterator<Item = *const T> + 'i
    where
        T: 'i,
    {
        self.0.iter_ptr_rev()
    }
    fn contains_reference(&self, e: &T) -> bool {
        self.0.contains_reference(e)
    }
    fn contains_ptr(&self, p: *const T) -> bool {
        self.0.contains_ptr(p)
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn capacity(&self) -> usize {
        self.0.capacity()
    }
    fn capacity_state(&self) -> CapacityState {
        self.0.capacity_state()
    }
    fn extend_from_slice(&mut self, other: &[T])
    where
        T: Clone,
    {
        self.0.extend_from_slice(other)
    }
    fn get(&self, i: usize) -> Option<&T> {
        self.0.get(i)
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        self.0.get_mut(i)
    }
    unsafe fn get_unchecked(&self, i: usize) -> &T {
        self.0.get_unchecked(i)
    }
    unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        self.0.get_unchecked_mut(i)
    }
    fn first(&self) -> Option<&T> {
        self.0.first()
    }
    fn last(&self) -> Option<&T> {
        self.0.last()
    }
    unsafe fn first_unchecked(&self) -> &T {
        self.0.first_unchecked()
    }
    unsafe fn last_unchecked(&self) -> &T {
        self.0.last_unchecked()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn push(&mut self, v: T) {
        self.0.push(v)
    }
    fn insert(&mut self, i: usize, e: T) {
        self.0.insert(i, e)
    }
    fn remove(&mut self, i: usize) -> T {
        self.0.remove(i)
    }
    fn pop(&mut self) -> Option<T> {
        self.0.pop()
    }
    fn swap(&mut self, a: usize, b: usize) {
        self.0.swap(a, b)
    }
    fn truncate(&mut self, len: usize) {
        self.0.truncate(len)
    }
    fn iter(&self) -> Self::Iter<'_> {
        self.0.iter()
    }
    fn iter_mut(&mut self) -> Self::IterMut<'_> {
        self.0.iter_mut()
    }
    fn iter_rev(&self) -> Self::IterRev<'_> {
        self.0.iter_rev()
    }
    fn iter_mut_rev(&mut self) -> Self::IterMutRev<'_> {
        self.0.iter_mut_rev()
    }
    fn slices<R: RangeBounds<usize>>(&self, r: R) -> Self::SliceIter<'_> {
        self.0.slices(r)
    }
    fn slices_mut<R: RangeBounds<usize>>(&mut self, r: R) -> Self::SliceMutIter<'_> {
        self.0.slices_mut(r)
    }
    fn get_ptr(&self, i: usize) -> Option<*const T> {
        self.0.get_ptr(i)
    }
    fn get_ptr_mut(&mut self, i: usize) -> Option<*mut T> {
        self.0.get_ptr_mut(i)
    }
    unsafe fn set_len(&mut self, n: usize) {
        self.0.set_len(n)
    }
    fn binary_search_by<F>(&self, f: F) -> Result<usize, usize>
    where
        F: FnMut(&T) -> Ordering,
    {
        self.0.binary_search_by(f)
    }
    fn sort(&mut self)
    where
        T: Ord,
    {
        self.0.sort()
    }
    fn sort_by<F>(&mut self, f: F)
    where
        F: FnMut(&T, &T) -> Ordering,
    {
        self.0.sort_by(f)
    }
    fn sort_by_key<K, F>(&mut self, f: F)
    where
        F: FnMut(&T) -> K,
        K: Ord,
    {
        self.0.sort_by_key(f)
    }
}

impl<T, V: IntoConcurrentPinnedVec<T>> IntoConcurrentPinnedVec<T> for Chaos<V> {
    type ConPinnedVec = ChaosCon<V::ConPinnedVec>;
    fn into_concurrent(self) -> Self::ConPinnedVec {
        ChaosCon::over(self.0.into_concurrent())
    }
    fn into_concurrent_filled_with<F>(self, f: F) -> Self::ConPinnedVec
    where
        F: Fn() -> T,
    {
        ChaosCon::over(self.0.into_concurrent_filled_with(f))
    }
}

impl<T, C> ConcurrentPinnedVec<T> for ChaosCon<C>
where
    C: ConcurrentPinnedVec<T>,
{
    type P = Chaos<C::P>;

    unsafe fn into_inner(self, len: usize) -> Self::P {
        self.exclusive("into_inner");
        let cap = self.inner.capacity();
        if len > cap {
            violation(format!(
                "storage contract: converted with length {len} beyond its capacity {cap}"
            ));
        }
        Chaos(self.inner.into_inner(len))
    }
    unsafe fn clone_with_len(&self, len: usize) -> Self
    where
        T: Clone,
    {
        ChaosCon::over(self.inner.clone_with_len(len))
    }
    unsafe fn iter<'a>(&'a self, len: usize) -> impl Iterator<Item = &'a T> + 'a
    where
        T: 'a,
    {
        let _s = self.shared();
        self.in_bounds("iter", 0, len);
        ChaosIter(self.inner.iter(len))
    }
    unsafe fn iter_over_range<'a, R: RangeBounds<usize>>(
        &'a self,
        range: R,
    ) -> impl Iterator<Item = &'a T> + 'a
    where
        T: 'a,
    {
        let _s = self.shared();
        let (a, b) = limits(&range, self.inner.capacity());
        self.in_bounds("iter_over_range", a, b);
        ChaosIter(self.inner.iter_over_range(range))
    }
    unsafe fn get(&self, i: usize) -> Option<&T> {
        let _s = self.shared();
        self.in_bounds("get", i, i.saturating_add(1));
        self.inner.get(i)
    }
    unsafe fn get_ptr_mut(&self, i: usize) -> *mut T {
        let _s = self.shared();
        self.in_bounds("get_ptr_mut", i, i.saturating_add(1));
        self.inner.get_ptr_mut(i)
    }
    unsafe fn slices_mut<R: RangeBounds<usize>>(
        &self,
        range: R,
    ) -> <Self::P as PinnedVec<T>>::SliceMutIter<'_> {
        let _s = self.shared();
        let (a, b) = limits(&range, self.inner.capacity());
        self.in_bounds("slices_mut", a, b);
        self.inner.slices_mut(range)
    }
    fn slices<R: RangeBounds<usize>>(&self, range: R) -> <Self::P as PinnedVec<T>>::SliceIter<'_> {
        let _s = self.shared();
        let (a, b) = limits(&range, self.inner.capacity());
        self.in_bounds("slices", a, b);
        self.inner.slices(range)
    }
    fn max_capacity(&self) -> usize {
        self.inner.max_capacity()
    }
    fn capacity(&self) -> usize {
        chaos_point();
        let c = self.published.load(Acquire);
        chaos_point();
        c
    }
    fn grow_to(&self, n: usize) -> Result<usize, PinnedVecGrowthError> {
        let _s = self.shared();
        self.grow(n, |n| self.inner.grow_to(n))
    }
    fn grow_to_and_fill_with<F>(&self, n: usize, f: F) -> Result<usize, PinnedVecGrowthError>
    where
        F: Fn() -> T,
    {
        let _s = self.shared();
        self.grow(n, |n| self.inner.grow_to_and_fill_with(n, f))
    }
    fn fill_with<F>(&self, r: Range<usize>, f: F)
    where
        F: Fn() -> T,
    {
        self.inner.fill_with(r, f)
    }
    unsafe fn reserve_maximum_concurrent_capacity(&mut self, len: usize, n: usize) -> usize {
        self.exclusive("reserve");
        let r = self.inner.reserve_maximum_concurrent_capacity(len, n);
        *self.published.get_mut() = self.inner.capacity();
        r
    }
    unsafe fn reserve_maximum_concurrent_capacity_fill_with<F>(
        &mut self,
        len: usize,
        n: usize,
        f: F,
    ) -> usize
    where
        F: Fn() -> T,
    {
        self.exclusive("reserve");
        let r = self
            .inner
            .reserve_maximum_concurrent_capacity_fill_with(len, n, f);
        *self.published.get_mut() = self.inner.capacity();
        r
    }
    unsafe fn set_pinned_vec_len(&mut self, len: usize) {
        let cap = self.inner.capacity();
        if len > cap {
            violation(format!(
                "storage contract: length set to {len} beyond the capacity {cap}"
            ));
        }
        self.inner.set_pinned_vec_len(len)
    }
    unsafe fn iter_mut<'a>(&'a mut self, len: usize) -> impl Iterator<Item = &'a mut T> + 'a
    where
        T: 'a,
    {
        self.in_bounds("iter_mut", 0, len);
        self.inner.iter_mut(len)
    }
    unsafe fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        self.inner.get_mut(i)
    }
    unsafe fn clear(&mut self, len: usize) {
        self.exclusive("clear");
        self.inner.clear(len);
        *self.published.get_mut() = self.inner.capacity();
    }
}
