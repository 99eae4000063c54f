//! Reference models (bit masks) and the finite/dense domains.
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval, Selection};
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::Sub;

/// Maximal runs of set bits.
pub fn runs(mut m: u128) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut base = 0;
    while m != 0 {
        let z = m.trailing_zeros() as usize;
        m >>= z;
        base += z;
        let o = m.trailing_ones() as usize;
        v.push((base, base + o - 1));
        m = if o == 128 { 0 } else { m >> o };
        base += o;
    }
    v
}
/// Bits `i..=j` (empty if `i > j`).
pub fn span(i: usize, j: usize) -> u128 {
    if i > j { 0 } else { (u128::MAX >> (127 - (j - i))) << i }
}
/// Smallest run containing all bits.
pub fn hull(m: u128) -> u128 {
    if m == 0 { 0 } else { span(m.trailing_zeros() as usize, 127 - m.leading_zeros() as usize) }
}

/// An iterator that reveals its length in one of several lawful ways.
pub struct Kind<'a, X> { items: &'a [X], at: usize, kind: usize }
pub const KINDS: usize = 9;
pub fn kind<X>(items: &[X], kind: usize) -> Kind<'_, X> { Kind { items, at: 0, kind } }
impl<X: Clone> Iterator for Kind<'_, X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        let x = self.items.get(self.at).cloned();
        self.at += 1;
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len().saturating_sub(self.at);
        match self.kind {
            0 => (n, Some(n)), 1 => (0, None), 2 => (0, Some(n)), 3 => (n, None), 4 => (n / 2, Some(2 * n)),
            5 => (n.min(1), Some(usize::MAX)), 6 => (n.saturating_sub(1), Some(n + 1)), 7 => (n.min(8), None), _ => (n.min(33), Some(n + 40)),
        }
    }
}

// ---------------------------------------------------------------- finite layer
pub trait V: Ord + Clone + Finite + Debug + Hash + Send + Sync + 'static {}
impl<T: Ord + Clone + Finite + Debug + Hash + Send + Sync + 'static> V for T {}

/// A user-defined finite type with values `0..N`. Deliberately not `Copy`.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct P<const N: u8>(pub u8);
impl<const N: u8> Debug for P<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl<const N: u8> Finite for P<N> {
    const MINIMUM: Self = P(0);
    const MAXIMUM: Self = P(N - 1);
    fn pred(&self) -> Option<Self> { self.0.checked_sub(1).map(P) }
    fn succ(&self) -> Option<Self> { if self.0 + 1 < N { Some(P(self.0 + 1)) } else { None } }
}
impl<const N: u8> Sub for P<N> {
    type Output = Self;
    fn sub(self, o: Self) -> Self { P(self.0.checked_sub(o.0).expect("size of an inverted interval")) }
}

/// A finite domain partitioned, in order, into cells (closed ranges).
#[derive(Clone)]
pub struct Dom<T> { pub name: String, pub cells: Vec<(T, T)>, pub single: bool }
impl<T: V> Dom<T> {
    pub fn n(&self) -> usize { self.cells.len() }
    pub fn full(&self) -> u128 { span(0, self.n() - 1) }
    /// The normalized interval covering cells `i..=j`, from its end points.
    pub fn iv(&self, i: usize, j: usize) -> Interval<T> {
        let (l, u) = (self.cells[i].0.clone(), self.cells[j].1.clone());
        if l == u { Interval::point(l) } else { Interval::closed(l, u) }
    }
    /// All intervals: empty, then by length.
    pub fn ivs(&self) -> Vec<(Interval<T>, u128)> {
        let mut v = vec![(Interval::empty(), 0)];
        for len in 0..self.n() {
            for i in 0..self.n() - len { v.push((self.iv(i, i + len), span(i, i + len))); }
        }
        v
    }
    /// The mask an interval holds, by membership of both ends of each cell.
    pub fn iv_mask(&self, iv: &Interval<T>) -> Result<u128, String> { self.by_contains(|p| iv.contains(p)) }
    pub fn sel_mask(&self, s: &Selection<T>) -> Result<u128, String> { self.by_contains(|p| s.contains(p)) }
    pub fn by_contains(&self, f: impl Fn(&T) -> bool) -> Result<u128, String> {
        let mut m = 0;
        for (k, (a, b)) in self.cells.iter().enumerate() {
            match (f(a), f(b)) {
                (true, true) => m |= 1 << k,
                (false, false) => {}
                (x, y) => return Err(format!("contains({:?})={} but contains({:?})={} (same cell)", a, x, b, y)),
            }
        }
        Ok(m)
    }
    /// The maximal intervals of a mask as (least, greatest).
    pub fn ends(&self, m: u128) -> Vec<(T, T)> {
        runs(m).into_iter().map(|(i, j)| (self.cells[i].0.clone(), self.cells[j].1.clone())).collect()
    }
    /// Checks one interval is the normal form of the closed range.
    pub fn is_exactly(&self, iv: &Interval<T>, l: &T, u: &T) -> Result<(), String> {
        let (lb, ub) = (iv.lower_bound(), iv.upper_bound());
        if lb != Some(Bound::Include(l.clone())) || ub != Some(Bound::Include(u.clone())) {
            return Err(format!("interval {:?} has bounds {:?}..{:?}, expected [{:?},{:?}]", iv, lb, ub, l, u));
        }
        Ok(())
    }
    /// Checks that a listing is exactly the maximal intervals of `m`.
    pub fn listing(&self, got: &[Interval<T>], m: u128) -> Result<(), String> {
        let want = self.ends(m);
        if got.len() != want.len() { return Err(format!("lists {:?}, expected {:?}", got, want)); }
        for (iv, (l, u)) in got.iter().zip(&want) {
            self.is_exactly(iv, l, u).map_err(|e| format!("lists {:?}, expected {:?}: {}", got, want, e))?;
            let built = if l == u { Interval::point(l.clone()) } else { Interval::closed(l.clone(), u.clone()) };
            if *iv != built { return Err(format!("listed {:?} is not equal to the directly built {:?}", iv, built)); }
        }
        Ok(())
    }
    pub fn show(&self, m: u128) -> String {
        format!("{{{}}}", self.ends(m).iter().map(|(a, b)| if a == b { format!("{:?}", a) } else { format!("{:?}..={:?}", a, b) }).collect::<Vec<_>>().join(","))
    }
}
pub fn pdom<const N: u8>() -> Dom<P<N>> {
    Dom { name: format!("values 0..{}", N), cells: (0..N).map(|i| (P(i), P(i))).collect(), single: true }
}

macro_rules! int_dom {
    ($f:ident, $t:ident) => {
        /// Cells near the minimum, zero, middle and maximum; wide gaps between.
        pub fn $f() -> Dom<$t> {
            let mut pts: Vec<$t> = vec![$t::MIN, $t::MIN + 1, $t::MIN + 2, $t::MAX - 2, $t::MAX - 1, $t::MAX];
            let mid = if $t::MIN == 0 { $t::MAX / 2 } else { 0 };
            pts.extend([mid - 1, mid, mid + 1]);
            pts.sort();
            let mut cells = vec![];
            let mut prev: Option<$t> = None;
            for p in pts {
                if let Some(q) = prev { if p - 1 > q { cells.push((q + 1, p - 1)); } }
                cells.push((p, p));
                prev = Some(p);
            }
            Dom { name: stringify!($t).into(), cells, single: false }
        }
    };
}
int_dom!(dom_u8, u8); int_dom!(dom_u16, u16); int_dom!(dom_u32, u32); int_dom!(dom_u64, u64);
int_dom!(dom_u128, u128); int_dom!(dom_usize, usize); int_dom!(dom_i8, i8); int_dom!(dom_i16, i16);
int_dom!(dom_i32, i32); int_dom!(dom_i64, i64); int_dom!(dom_i128, i128); int_dom!(dom_isize, isize);

// ---------------------------------------------------------------- dense layer
/// End points and probes of the dense line: region `r` is probed by `K(r+1)`;
/// end point `k` (of `n`) is region `2k+1`. Deliberately not `Copy`.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct K(pub i32);
impl Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0 % 2 == 0 { write!(f, "{}", self.0 / 2) } else { write!(f, "{}.5", self.0 / 2) }
    }
}
pub type Raw = RawInterval<K>;
pub fn ep(k: usize) -> K { K(2 * k as i32 + 2) }
pub fn probe(r: usize) -> K { K(r as i32 + 1) }
pub struct Line { pub n: usize }
impl Line {
    pub fn regions(&self) -> usize { 2 * self.n + 1 }
    pub fn full(&self) -> u128 { span(0, 2 * self.n) }
    /// The unique raw interval holding exactly regions `a..=b`.
    pub fn raw(&self, a: usize, b: usize) -> Raw {
        use RawInterval::*;
        let last = 2 * self.n;
        let at = |r: usize| K(r as i32 + 1);
        match (a, b) {
            (0, b) if b == last => Full,
            (0, b) if b % 2 == 1 => To(at(b)),
            (0, b) => UpTo(at(b + 1)),
            (a, b) if b == last => if a % 2 == 1 { From(at(a)) } else { UpFrom(at(a - 1)) },
            (a, b) if a == b && a % 2 == 1 => Point(at(a)),
            (a, b) => match (a % 2 == 1, b % 2 == 1) {
                (true, true) => Closed(at(a), at(b)),
                (true, false) => RightOpen(at(a), at(b + 1)),
                (false, true) => LeftOpen(at(a - 1), at(b)),
                (false, false) => Open(at(a - 1), at(b + 1)),
            },
        }
    }
    /// Every raw interval on the end points (empty first, then by length).
    pub fn raws(&self) -> Vec<(Raw, u128)> {
        let mut v = vec![(RawInterval::Empty, 0)];
        let r = self.regions();
        for len in 0..r {
            for a in 0..r - len { v.push((self.raw(a, a + len), span(a, a + len))); }
        }
        v
    }
    pub fn mask(&self, f: impl Fn(&K) -> bool) -> u128 {
        (0..self.regions()).filter(|&r| f(&probe(r))).fold(0, |m, r| m | 1 << r)
    }
    pub fn raw_mask(&self, r: &Raw) -> u128 { self.mask(|p| r.contains(p)) }
    /// The maximal raw intervals of a mask.
    pub fn parts(&self, m: u128) -> Vec<Raw> { runs(m).into_iter().map(|(a, b)| self.raw(a, b)).collect() }
    pub fn one(&self, m: u128) -> Raw { if m == 0 { RawInterval::Empty } else { let (a, b) = runs(m)[0]; self.raw(a, b) } }
    /// Smallest mask closed under the given mask being an interval whose
    /// finite ends are included.
    pub fn close(&self, m: u128) -> u128 {
        let mut m = hull(m);
        if m == 0 { return 0; }
        let (a, b) = runs(m)[0];
        if a > 0 && a % 2 == 0 { m |= 1 << (a - 1); }
        if b < 2 * self.n && b % 2 == 0 { m |= 1 << (b + 1); }
        m
    }
    pub fn show(&self, m: u128) -> String { format!("{:?}", self.parts(m)) }
}
