//! Sequential differential testing against an ordinary vector.
use crate::growth::ExactIter;
use crate::*;

pub struct Sut<T, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> {
    pub vec: ConcurrentVec<T, P>,
    pub model: Vec<u64>,
    pub next: u64,
    /// values are drawn from a small domain
    pub dups: bool,
    pub max: usize,
    pub log: Vec<(&'static str, usize, usize)>,
}

pub const GROW: [usize; 5] = [0, 1, 2, 3, 4];
pub const UPDATE: [usize; 7] = [5, 6, 7, 8, 9, 10, 11];
pub const EXCL: [usize; 2] = [12, 13];

impl<T: Pay, P: Store<T>> Sut<T, P> {
    pub fn new(rng: &mut Rng, need: usize) -> Self {
        let vec = P::build(rng, need);
        Self::over(rng, vec, vec![])
    }
    pub fn over(rng: &mut Rng, vec: ConcurrentVec<T, P>, model: Vec<u64>) -> Self {
        let max = vec.maximum_capacity();
        Self {
            vec,
            model,
            next: rng.next() >> 20,
            dups: false,
            max,
            log: vec![],
        }
    }
    pub fn what(&self) -> String {
        let k = self.log.len().saturating_sub(12);
        format!("{} {} after {} steps, the last ones {:?}", P::NAME, T::NAME, self.log.len(), &self.log[k..])
    }
    pub fn fresh(&mut self, rng: &mut Rng) -> u64 {
        if self.dups {
            rng.below(6) as u64
        } else {
            self.next += 1;
            self.next
        }
    }
    pub fn room(&self) -> usize {
        self.max.saturating_sub(self.model.len())
    }
    pub fn elem(&self, i: usize) -> u64 {
        self.vec[i].map(|x| x.val())
    }
    /// random existing position
    pub fn pos(&self, rng: &mut Rng) -> usize {
        let n = self.model.len();
        match rng.below(6) {
            0 => 0,
            1 => n - 1,
            _ => rng.below(n),
        }
    }
    /// random window of the current contents
    pub fn window(&self, rng: &mut Rng) -> (usize, usize) {
        let n = self.model.len();
        let (a, b) = (rng.below(n + 1), rng.below(n + 1));
        (a.min(b), a.max(b))
    }

    /// one random step; grows by up to `batch` items
    pub fn step(&mut self, rng: &mut Rng, ops: &[usize], batch: usize) {
        let mut k = *rng.pick(ops);
        if k < 5 && self.room() == 0 || (5..=9).contains(&k) && self.model.is_empty() {
            k = 10;
        }
        self.apply(rng, k, batch);
    }

    pub fn apply(&mut self, rng: &mut Rng, k: usize, batch: usize) {
        let before = self.model.len();
        match k {
            0 | 1 => {
                let v = self.fresh(rng);
                let i = if k == 0 {
                    self.vec.push(T::make(v))
                } else {
                    self.vec.push_for_idx(|_| T::make(v))
                };
                self.model.push(v);
                self.log.push(("push", i, k));
                check!(i == before, "{}: push returned {i}, expected {before}", self.what());
            }
            2..=4 => {
                let n = rng.skewed(batch).min(self.room());
                let vals: Vec<u64> = (0..n).map(|_| self.fresh(rng)).collect();
                let i = match k {
                    2 => self.vec.extend(ExactIter { it: vals.iter().map(|v| T::make(*v)), n }),
                    3 => self.vec.extend_for_idx(|_| vals.iter().map(|v| T::make(*v)).collect::<Vec<_>>(), n),
                    _ => self.vec.extend_n_items(vals.iter().map(|v| T::make(*v)), n),
                };
                self.model.extend(vals);
                self.log.push(("extend", i, n));
                check!(i == before, "{}: extend returned {i}, expected {before}", self.what());
            }
            5 => {
                let (i, v) = (self.pos(rng), self.fresh(rng));
                self.log.push(("set", i, 0));
                reach(&self.vec, i, rng.below(WAYS), rng.below(64), |e| e.set(T::make(v)));
                self.model[i] = v;
            }
            6 => {
                let (i, v) = (self.pos(rng), self.fresh(rng));
                self.log.push(("update", i, 0));
                let old = self.model[i];
                let w = self.what();
                let mut calls = 0;
                reach(&self.vec, i, rng.below(WAYS), rng.below(64), |e| {
                    e.update(|x| {
                        calls += 1;
                        check!(x.val() == old, "{w}: update of {i} saw {:x}, expected {old:x}", x.val());
                        if v % 2 == 0 {
                            x.put(v)
                        } else {
                            *x = T::make(v)
                        }
                    })
                });
                check!(calls == 1, "{w}: the closure of update was called {calls} times");
                self.model[i] = v;
            }
            7 => {
                let (i, v) = (self.pos(rng), self.fresh(rng));
                self.log.push(("replace", i, 0));
                let old = reach(&self.vec, i, rng.below(WAYS), rng.below(64), |e| e.replace(T::make(v)));
                let old = old.val();
                check!(old == self.model[i], "{}: replace of {i} returned {old:x}, expected {:x}", self.what(), self.model[i]);
                self.model[i] = v;
            }
            8 => {
                let n = before + 2;
                let (i, j) = (rng.below(n), rng.below(n));
                self.log.push(("swap", i, j));
                let r = self.vec.swap(i, j);
                let ok = i < before && j < before;
                if ok {
                    self.model.swap(i, j);
                }
                check!(r == ok, "{}: swap({i},{j}) with length {before} returned {r}", self.what());
            }
            9 => {
                let (a, b) = self.window(rng);
                let s = self.vec.slice(a..b);
                let n = b - a + 1;
                let (i, j) = (rng.below(n + 1), rng.below(n + 1));
                self.log.push(("slice swap", a + i, a + j));
                let r = s.swap(i, j);
                let ok = i < b - a && j < b - a;
                check!(r == ok, "{}: swap({i},{j}) of the slice {a}..{b} returned {r}", self.what());
                if ok {
                    self.model.swap(a + i, a + j);
                }
            }
            10 => {
                let (a, b) = self.window(rng);
                let v = self.fresh(rng);
                self.log.push(("fill", a, b));
                if rng.below(4) == 0 {
                    self.vec.fill(T::make(v));
                    self.model.iter_mut().for_each(|x| *x = v);
                } else {
                    self.vec.slice(a..b).fill(T::make(v));
                    self.model[a..b].iter_mut().for_each(|x| *x = v);
                }
            }
            11 => {
                let (a, b) = self.window(rng);
                let v = self.fresh(rng);
                self.log.push(("fill_with", a, b));
                if rng.below(4) == 0 {
                    self.vec.fill_with(|k| T::make(v + k as u64));
                    self.model.iter_mut().enumerate().for_each(|(k, x)| *x = v + k as u64);
                } else {
                    self.vec.slice(a..b).fill_with(|k| T::make(v + k as u64));
                    self.model[a..b].iter_mut().enumerate().for_each(|(k, x)| *x = v + k as u64);
                }
                if !self.dups {
                    self.next = self.next.max(v + before as u64 + 1);
                }
            }
            12 => {
                self.log.push(("clear", before, 0));
                self.vec.clear();
                self.model.clear();
                let m = self.vec.maximum_capacity();
                check!(m == self.max, "{}: maximum capacity {} became {m} by clear", self.what(), self.max);
            }
            _ => {
                let want = match rng.below(3) {
                    0 => rng.below(self.max.min(5000) + 1),
                    1 => self.max.min(5000) + rng.below(40),
                    _ => before + rng.below(300),
                };
                self.log.push(("reserve", want, 0));
                let r = self.vec.reserve_maximum_capacity(want);
                let m = self.vec.maximum_capacity();
                check!(r == m, "{}: reserve_maximum_capacity({want}) returned {r} while maximum_capacity is {m}", self.what());
                check!(m >= want, "{}: maximum capacity is {m} after reserving {want}", self.what());
                check!(m >= self.max, "{}: maximum capacity decreased from {} to {m} by reserving {want}", self.what(), self.max);
                self.max = m;
            }
        }
    }

    /// the contents by plain iteration
    pub fn verify(&self) {
        let c = growth::contents(&self.vec);
        check!(
            c == self.model,
            "{}: contents {:?} differ from the expected {:?}",
            self.what(),
            diff(&c, &self.model),
            diff(&self.model, &c)
        );
        check!(self.vec.len() == self.model.len(), "{}: len {} expected {}", self.what(), self.vec.len(), self.model.len());
        check!(self.vec.is_empty() == self.model.is_empty(), "{}: is_empty is wrong", self.what());
    }
}

/// first difference with its surrounding
pub fn diff(a: &[u64], b: &[u64]) -> (usize, usize, Vec<u64>) {
    let k = (0..a.len().max(b.len())).find(|&k| a.get(k) != b.get(k)).unwrap_or(0);
    (a.len(), k, a.iter().skip(k.saturating_sub(1)).take(4).copied().collect())
}
