//! The work of an operation must follow the number of intervals, never the
//! number of values they hold. Values count every comparison, copy and step;
//! each case runs over a narrow type (cells of five values) and over a wide
//! one (cells of 10^15 values) with the same arrangement of end points.
use crate::engine::*;
use crate::model::*;
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval, Selection};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Sub;

thread_local! { static COUNT: Cell<u64> = const { Cell::new(0) }; static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) }; }
fn tick() {
    COUNT.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            panic!("over the limit of {} comparisons, copies and steps", n - 1);
        }
    });
}
/// A user-written finite type `0..N` whose values count what is done to them.
pub struct W<const N: i64>(i64);
impl<const N: i64> Debug for W<N> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl<const N: i64> Clone for W<N> { fn clone(&self) -> Self { tick(); W(self.0) } }
impl<const N: i64> PartialEq for W<N> { fn eq(&self, o: &Self) -> bool { tick(); self.0 == o.0 } }
impl<const N: i64> Eq for W<N> {}
impl<const N: i64> PartialOrd for W<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { tick(); Some(self.0.cmp(&o.0)) } }
impl<const N: i64> Ord for W<N> { fn cmp(&self, o: &Self) -> Ordering { tick(); self.0.cmp(&o.0) } }
impl<const N: i64> Hash for W<N> { fn hash<H: Hasher>(&self, h: &mut H) { tick(); self.0.hash(h) } }
impl<const N: i64> Sub for W<N> { type Output = Self; fn sub(self, o: Self) -> Self { tick(); W(self.0 - o.0) } }
impl<const N: i64> Finite for W<N> {
    const MINIMUM: Self = W(0);
    const MAXIMUM: Self = W(N - 1);
    fn pred(&self) -> Option<Self> { tick(); (self.0 > 0).then(|| W(self.0 - 1)) }
    fn succ(&self) -> Option<Self> { tick(); (self.0 < N - 1).then(|| W(self.0 + 1)) }
}
/// The most cells any case has; the last cell reaches to the maximum.
const CELLS: i64 = 600;
const NARROW: i64 = 5 * CELLS;
const WIDE_CELL: i64 = 1_000_000_000_000_000;
const WIDE: i64 = WIDE_CELL * CELLS;
/// All cells wide, or every second one a single value.
pub fn dom<const N: i64>(c: usize, mixed: bool) -> Dom<W<N>> {
    let w = N / CELLS;
    let mut cells: Vec<(W<N>, W<N>)> = (0..c as i64).map(|k| match (mixed, k % 2) {
        (false, _) => (W(k * w), W((k + 1) * w - 1)),
        (true, 0) => (W(k / 2 * w), W(k / 2 * w + w - 2)),
        (true, _) => (W(k / 2 * w + w - 1), W(k / 2 * w + w - 1)),
    }).collect();
    cells[c - 1].1 = W(N - 1);
    Dom { name: format!("cells of {} values", w), single: false, cells }
}

/// Measures operations one after the other against limits from another run.
pub struct Meter<'a> { limits: Option<&'a [u64]>, pub costs: Vec<u64>, pub names: Vec<&'static str> }
impl Meter<'_> {
    fn run<X>(&mut self, name: &'static str, f: impl FnOnce() -> X) -> X {
        let lim = match self.limits { None => 1 << 40, Some(l) => l.get(self.costs.len()).copied().unwrap_or(1000) };
        self.names.push(name);
        COUNT.with(|c| c.set(0));
        LIMIT.with(|l| l.set(lim));
        let r = f();
        LIMIT.with(|l| l.set(u64::MAX));
        self.costs.push(COUNT.with(|c| c.get()));
        r
    }
}
/// The case over the narrow type, then over the wide one with limits of four
/// times the narrow cost and 5000 steps.
fn compare(rec: &mut Rec, narrow: impl Fn(&mut Meter<'_>), wide: impl Fn(&mut Meter<'_>)) -> R {
    let mut a = Meter { limits: None, costs: vec![], names: vec![] };
    narrow(&mut a);
    rec.ops(a.costs.len() as u64);
    let limits: Vec<u64> = a.costs.iter().map(|c| 4 * c + 5000).collect();
    let mut b = Meter { limits: Some(&limits), costs: vec![], names: vec![] };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wide(&mut b)));
    LIMIT.with(|l| l.set(u64::MAX));
    rec.ops(b.costs.len() as u64);
    match r {
        Ok(()) => { rec.out(b.costs.iter().sum::<u64>() as u128); Ok(()) }
        Err(_) => {
            let k = b.names.len() - 1;
            let known = a.costs.get(k).map_or(String::from("-"), |c| c.to_string());
            Err(format!("{} takes more than four times the {} steps (+5000) it takes over cells of five values", b.names[k], known))
        }
    }
}

/// A long walk: `step(k)` is made `n` times; no step may take more than four
/// times the dearest of the first twenty and 2000 more (what a step costs must
/// not grow with the values given so far).
fn walk(rec: &mut Rec, what: &str, n: usize, mut step: impl FnMut(usize)) -> R {
    let mut first = 0;
    for k in 0..n {
        COUNT.with(|c| c.set(0));
        LIMIT.with(|l| l.set(if k < 20 { 1 << 30 } else { 4 * first + 2000 }));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(k)));
        LIMIT.with(|l| l.set(u64::MAX));
        if r.is_err() { return Err(format!("step {} of {} takes more than four times the {} comparisons, copies and steps (+2000) of the first twenty", k, what, first)); }
        if k < 20 { first = first.max(COUNT.with(|c| c.get())); }
    }
    rec.ops(n as u64);
    rec.out(first as u128);
    Ok(())
}
/// Which end step `k` takes from: front, back, alternating, or in long runs.
fn from_back(sched: usize, k: usize) -> bool { match sched { 0 => false, 1 => true, 2 => k % 2 == 1, _ => k / 1700 % 2 == 1 } }
fn drive_steps<I: DoubleEndedIterator>(rec: &mut Rec, what: &str, n: usize, sched: usize, mut it: I) -> R {
    walk(rec, what, n, |k| {
        let x = if from_back(sched, k) { it.next_back() } else { it.next() };
        assert!(x.is_some(), "ended");
        if k % 8 == 5 { let _ = it.size_hint(); }
    })
}

type Wi<const N: i64> = Interval<W<N>>;
fn some<X>(it: impl DoubleEndedIterator<Item = X>, front: usize, back: usize) {
    let mut it = it;
    for _ in 0..front { it.next(); }
    for _ in 0..back { it.next_back(); }
    it.next();
    it.size_hint();
}
/// Raw intervals of every kind between two cells' ends.
fn raws<const N: i64>(d: &Dom<W<N>>) -> Vec<RawInterval<W<N>>> {
    use RawInterval::*;
    let at = |k: usize| W::<N>(d.cells[k].0 .0);
    let last = d.n() - 1;
    let mut v = vec![Empty, Full];
    for i in 0..=last {
        v.extend([Point(at(i)), UpTo(at(i)), UpFrom(at(i)), To(at(i)), From(at(i))]);
        v.extend([UpTo(W(N - 1)), UpFrom(W(N - 1)), To(W(N - 1)), From(W(N - 1))]);
        for j in i + 1..=last { v.extend([Open(at(i), at(j)), LeftOpen(at(i), at(j)), RightOpen(at(i), at(j)), Closed(at(i), at(j))]); }
    }
    v.extend([Open(at(0), W(N - 1)), Closed(at(0), W(N - 1)), LeftOpen(at(0), W(N - 1)), RightOpen(at(0), W(N - 1))]);
    v
}
fn raw_case<const N: i64>(m: &mut Meter<'_>, c: usize, i: usize) {
    let d = dom::<N>(c, false);
    let r = raws(&d).swap_remove(i);
    let q = W::<N>(d.cells[c / 2].0 .0);
    m.run("normalized", || { let _ = r.clone().normalized(); });
    m.run("denormalized", || { let _ = r.clone().denormalized(); });
    let iv = m.run("Interval::from", || Interval::from(r.clone()));
    m.run("bounds", || { let _ = (iv.lower_bound(), iv.upper_bound(), iv.infimum(), iv.supremum(), iv.size()); });
    m.run("contains", || iv.contains(&q));
    for (lo, hi) in &d.cells { m.run("contains an end", || (iv.contains(lo), iv.contains(hi), r.contains(lo), r.contains(hi))); }
    let mut it = iv.iter();
    for k in 0..8 {
        m.run("next, next_back, size_hint, nth", || { let _ = (it.next(), it.size_hint(), if k % 2 == 0 { it.next_back() } else { it.nth(k % 3) }, it.size_hint()); });
    }
    let mut it = (&iv).into_iter();
    for k in 0..6 { m.run("next_back, nth_back", || { let _ = (it.next_back(), it.nth_back(k % 3), it.size_hint()); }); }
    m.run("predicates", || {
        let _ = (iv.is_empty(), iv.is_degenerate(), iv.is_proper(), iv.is_open(), iv.is_left_open(), iv.is_right_open(), iv.is_half_open());
        let _ = (iv.is_closed(), iv.is_left_closed(), iv.is_right_closed(), iv.is_half_closed());
        let _ = (iv.is_bounded(), iv.is_left_bounded(), iv.is_right_bounded(), iv.is_half_bounded());
    });
    m.run("closure", || iv.closure());
    m.run("complement", || iv.complement().count());
    m.run("into_non_empty", || iv.clone().into_non_empty());
    m.run("hash", || std_hash(&iv));
    m.run("iter", || iv.iter());
    m.run("three steps of iter", || some(iv.iter(), 2, 0));
    m.run("three steps of iter from the back", || some(iv.iter(), 0, 2));
    m.run("five steps of iter from both ends", || some(iv.iter(), 2, 2));
    let s = m.run("Selection::from", || Selection::from(iv.clone()));
    selection(m, &s, &q);
    m.run("RawInterval::new", || match (r.lower_bound(), r.upper_bound()) { (Some(l), Some(u)) => RawInterval::new(l, u), _ => RawInterval::Empty });
    m.run("raw contains, bounds", || { let _ = (r.contains(&q), r.infimum(), r.supremum(), r.is_empty(), r.is_full()); });
    m.run("conversions and constructors", || {
        let p = || d.cells[1].1.clone();
        let last = || d.cells[c - 1].1.clone();
        let _: [Wi<N>; 13] = [Interval::from(p()..q.clone()), Interval::from(p()..), Interval::from(..p()), Interval::from(..=p()), Interval::from(..), Interval::from(p()),
            Interval::right_open(p(), last()), Interval::left_closed(p(), last()), Interval::right_closed(p(), last()), Interval::unbounded_from(p()), Interval::unbounded_up_to(p()), Interval::open(p(), last()), Interval::full()];
        let _ = (Interval::<W<N>>::unbounded_to(p()), Interval::<W<N>>::unbounded_up_from(p()), Selection::<W<N>>::full(), Selection::<W<N>>::new(), Interval::<W<N>>::default());
    });
    m.run("Interval::new", || match (r.lower_bound(), r.upper_bound()) { (Some(l), Some(u)) => Interval::new(l, u), _ => Interval::empty() });
}
fn raw_pair<const N: i64>(m: &mut Meter<'_>, c: usize, i: usize, j: usize) {
    let d = dom::<N>(c, false);
    let all = raws(&d);
    let (a, b) = (&all[i], &all[j]);
    m.run("raw intersect", || a.intersect(b));
    m.run("raw union", || a.union(b).count());
    m.run("raw minus", || a.minus(b).count());
    m.run("raw enclose", || a.enclose(b));
    m.run("raw intersects, is_adjacent_to", || (a.intersects(b), a.is_adjacent_to(b)));
    let (a, b) = (Wi::<N>::from(a.clone()), Wi::<N>::from(b.clone()));
    m.run("==", || a == b);
    m.run("intersects", || a.intersects(&b));
    m.run("is_adjacent_to", || a.is_adjacent_to(&b));
    m.run("intersect", || a.intersect(&b));
    m.run("union", || a.union(&b).count());
    m.run("minus", || a.minus(&b).count());
    m.run("enclose", || a.enclose(&b));
}
fn selection<const N: i64>(m: &mut Meter<'_>, s: &Selection<W<N>>, q: &W<N>) {
    m.run("selection: bounds", || { let _ = (s.lower_bound(), s.upper_bound(), s.infimum(), s.supremum()); });
    m.run("selection: predicates", || { let _ = (s.is_empty(), s.is_full(), s.is_bounded(), s.is_left_bounded(), s.is_right_bounded(), s.is_half_bounded()); });
    m.run("selection: contains", || s.contains(q));
    m.run("selection: enclose", || s.enclose());
    m.run("selection: closure", || s.closure());
    m.run("selection: complement", || s.complement());
    m.run("selection: hash", || std_hash(s));
    m.run("selection: clone", || s.clone());
    m.run("selection: interval_iter", || s.interval_iter().count());
    m.run("selection: interval_iter from the back", || s.interval_iter().rev().count());
    m.run("selection: into_interval_iter", || s.clone().into_interval_iter().count());
    m.run("selection: iter", || { let _ = s.iter(); });
    m.run("selection: three steps of iter", || some(s.iter(), 2, 0));
    m.run("selection: three steps of iter from the back", || some(s.iter(), 0, 2));
    m.run("selection: five steps of into_iter", || some(s.clone().into_iter(), 2, 2));
    m.run("selection: nine steps of iter", || some(s.iter(), 4, 4));
}
fn sel_case<const N: i64>(m: &mut Meter<'_>, b: &[bool], mixed: bool) {
    let d = dom::<N>(b.len(), mixed);
    let parts: Vec<Wi<N>> = crate::big::bruns(b).into_iter().map(|(i, j)| d.iv(i, j)).collect();
    let s: Selection<W<N>> = m.run("collect intervals", || parts.iter().cloned().collect());
    m.run("collect intervals, last first", || parts.iter().rev().cloned().collect::<Selection<_>>());
    m.run("extend", || { let mut t = Selection::new(); t.extend(parts.iter().cloned()); t });
    m.run("collect values", || d.cells.iter().flat_map(|(a, b)| [a.clone(), b.clone()]).collect::<Selection<_>>());
    selection(m, &s, &d.cells[b.len() / 2].0);
    let step = (b.len() / 20).max(1);
    for (lo, hi) in d.cells.iter().step_by(step).chain(d.cells.last()) {
        m.run("selection: contains", || (s.contains(lo), s.contains(hi)));
        m.run("selection: intersects one value", || s.intersects(&Selection::from(Interval::point(lo.clone()))));
        m.run("selection: union_in_place of one value", || { let mut t = s.clone(); t.union_in_place(Interval::point(lo.clone())); });
        m.run("selection: minus_in_place of one value", || { let mut t = s.clone(); t.minus_in_place(Interval::point(hi.clone())); });
        m.run("selection: intersect_in_place with one value", || { let mut t = s.clone(); t.intersect_in_place(Interval::point(hi.clone())); });
        m.run("selection: steps around a removed value", || { let mut t = s.clone(); t.minus_in_place(Interval::point(lo.clone())); some(t.iter(), 3, 3); some(t.into_iter(), 1, 5); });
    }
    let mut it = s.iter();
    for k in 0..8 {
        m.run("selection: next, next_back, size_hint", || { let _ = (it.next(), it.size_hint(), if k % 2 == 0 { it.next_back() } else { None }, it.size_hint()); });
    }
    let mut it = (&s).into_iter();
    for k in 0..8 {
        m.run("selection: next_back, next, nth", || { let _ = (it.next_back(), it.nth(k % 3), it.nth_back(k % 2)); });
    }
}
fn sel_in_place<const N: i64>(m: &mut Meter<'_>, b: &[bool], i: usize, j: usize, mixed: bool) {
    let d = dom::<N>(b.len(), mixed);
    let s: Selection<W<N>> = crate::big::bruns(b).into_iter().map(|(i, j)| d.iv(i, j)).collect();
    let iv = d.iv(i, j);
    m.run("union_in_place", || { let mut t = s.clone(); t.union_in_place(iv.clone()); });
    m.run("minus_in_place", || { let mut t = s.clone(); t.minus_in_place(iv.clone()); });
    m.run("intersect_in_place", || { let mut t = s.clone(); t.intersect_in_place(iv.clone()); });
}
fn sel_pair<const N: i64>(m: &mut Meter<'_>, a: &[bool], b: &[bool], mixed: bool) {
    let d = dom::<N>(a.len(), mixed);
    let mk = |b: &[bool]| -> Selection<W<N>> { crate::big::bruns(b).into_iter().map(|(i, j)| d.iv(i, j)).collect() };
    let (s, t) = (mk(a), mk(b));
    m.run("selection ==", || s == t);
    m.run("selection intersects", || s.intersects(&t));
    m.run("selection intersect", || s.intersect(&t));
    m.run("selection union", || s.union(&t));
    m.run("selection minus", || s.minus(&t));
}
fn bits(c: usize, m: u64) -> Vec<bool> { (0..c).map(|i| m >> i & 1 == 1).collect() }

pub fn c27(cx: &mut Ctx) {
    let c = cx.pick(10, 14);
    let n = raws(&dom::<NARROW>(c, false)).len();
    let show = |i: usize| format!("{:?}", raws(&dom::<WIDE>(c, false))[i]);
    cx.enumerate("one interval", n as u64, n as u64, |i| show(i as usize), |i, rec| {
        compare(rec, |m| raw_case::<NARROW>(m, c, i as usize), |m| raw_case::<WIDE>(m, c, i as usize))
    });
    let c = cx.pick(7, 9);
    let n = raws(&dom::<NARROW>(c, false)).len();
    let show = |i: usize| format!("{:?}", raws(&dom::<WIDE>(c, false))[i]);
    cx.enumerate("pairs of intervals", (n * n) as u64, n as u64, |i| format!("{} and {}", show(i as usize / n), show(i as usize % n)), |i, rec| {
        let (i, j) = (i as usize / n, i as usize % n);
        compare(rec, |m| raw_pair::<NARROW>(m, c, i, j), |m| raw_pair::<WIDE>(m, c, i, j))
    });
    let c = cx.pick(13, 16);
    cx.enumerate("selections", 2 << c, 2 << c, |i| format!("cells {:b} of {}, {}", i / 2, c, kind(i)), |i, rec| {
        let (b, mixed) = (bits(c, i / 2), i % 2 == 1);
        compare(rec, |m| sel_case::<NARROW>(m, &b, mixed), |m| sel_case::<WIDE>(m, &b, mixed))
    });
    let c = cx.pick(10, 13);
    let k = c * (c + 1) / 2;
    let ij = |mut x: usize| { let mut i = 0; while x >= c - i { x -= c - i; i += 1; } (i, i + x) };
    cx.enumerate("in-place operations", (2 * k << c) as u64, 1 << c, |x| format!("cells {:b} of {}, interval {:?}, {}", x as usize / 2 / k, c, ij(x as usize / 2 % k), kind(x)), |x, rec| {
        let (b, (i, j), mixed) = (bits(c, x / 2 / k as u64), ij(x as usize / 2 % k), x % 2 == 1);
        compare(rec, |m| sel_in_place::<NARROW>(m, &b, i, j, mixed), |m| sel_in_place::<WIDE>(m, &b, i, j, mixed))
    });
    let c = cx.pick(8, 10);
    cx.enumerate("pairs of selections", 2 << (2 * c), 2 << c, |x| format!("cells {:b} and {:b} of {}, {}", x >> (c + 1), x / 2 & ((1 << c) - 1), c, kind(x)), |x, rec| {
        let (a, b, mixed) = (bits(c, x >> (c + 1)), bits(c, x / 2 & ((1 << c) - 1)), x % 2 == 1);
        compare(rec, |m| sel_pair::<NARROW>(m, &a, &b, mixed), |m| sel_pair::<WIDE>(m, &a, &b, mixed))
    });
    // Long walks and long histories over a few wide intervals.
    let n = cx.pick(9_000, 60_000);
    let d = dom::<WIDE>(8, false);
    let shapes: Vec<Vec<bool>> = [1u64, 0b1000_0000, 0b10, 0b0110_1101, 0b1111_1111, 0b1010_1010].iter().map(|&m| bits(8, m)).collect();
    let starts = || shapes.iter().map(|b| crate::big::bruns(b).into_iter().map(|(i, j)| d.iv(i, j)).collect::<Vec<_>>());
    let total = shapes.len() * 4 * 6;
    let pick = |i: u64| (i as usize / 24, i as usize / 6 % 4, i as usize % 6);
    let kinds = ["Interval::iter", "&Interval::into_iter", "Selection::iter", "Selection::into_iter", "in-place removal and addition of values", "in-place operations with wide intervals"];
    cx.enumerate("long walks", total as u64, total as u64, |i| { let (s, w, k) = pick(i); format!("{} of shape {}, schedule {}", kinds[k], s, w) }, |i, rec| {
        let (s, w, k) = pick(i);
        let parts = starts().nth(s).unwrap();
        let sel: Selection<W<WIDE>> = parts.iter().cloned().collect();
        let iv = if w % 2 == 1 { parts[parts.len() - 1].clone() } else { parts[0].clone() };
        match k {
            0 => drive_steps(rec, kinds[k], n, w, iv.iter()),
            1 => drive_steps(rec, kinds[k], n, w, (&iv).into_iter()),
            2 => drive_steps(rec, kinds[k], n, w, sel.iter()),
            3 => drive_steps(rec, kinds[k], n, w, sel.into_iter()),
            // The number of intervals stays below a dozen throughout.
            4 => {
                let mut t = sel.clone();
                let q: Vec<i64> = d.cells.iter().map(|c| c.0 .0 + 7).collect();
                walk(rec, kinds[k], n, |j| {
                    let x = if from_back(w, j) { q[7 - j / 2 % 8] + j as i64 } else { q[j / 2 % 8] };
                    let v = Interval::point(W(x));
                    if t.contains(&W(x)) { t.minus_in_place(v.clone()); t.union_in_place(v); } else { t.union_in_place(v.clone()); t.minus_in_place(v); }
                })
            }
            _ => {
                let mut t = sel.clone();
                walk(rec, kinds[k], n, |j| {
                    let a = (j * 5 + w) % 8;
                    let v = d.iv(a, a + (j / 8) % (8 - a));
                    match j % 5 { 0 | 3 => t.union_in_place(v), 1 => t.minus_in_place(v), 2 => { t.minus_in_place(v.clone()); t.extend([v]) } _ => { t.union_in_place(d.iv(0, 6)); t.intersect_in_place(v) } }
                    let _ = (t.enclose(), t.contains(&d.cells[a].0));
                })
            }
        }
    });
    // Many intervals.
    let sizes: Vec<usize> = cx.pick((12..=70).chain([100, 130, 200, 260]).collect(), (12..=140).chain([200, 260, 300, 400, 520, 600]).collect());
    let np = crate::big::PATS.len();
    let n = sizes.len() * np * np * 2;
    let pick = |i: u64| { let i = i as usize / 2; (sizes[i / (np * np)], i / np % np, i % np) };
    cx.enumerate("many intervals", n as u64, n as u64, |i| { let (s, p, q) = pick(i); format!("{} cells, patterns {} and {}, {}", s, p, q, kind(i)) }, |i, rec| {
        let ((r, p, q), mixed) = (pick(i), i % 2 == 1);
        let (a, b) = (crate::big::pattern(p, r, 0), crate::big::pattern(q, r, 1));
        compare(rec, |m| sel_pair::<NARROW>(m, &a, &b, mixed), |m| sel_pair::<WIDE>(m, &a, &b, mixed))?;
        if q == 0 {
            compare(rec, |m| sel_case::<NARROW>(m, &a, mixed), |m| sel_case::<WIDE>(m, &a, mixed))?;
            for (x, y) in [(0, 0), (0, r / 2), (r / 3, r / 2), (r / 2, r - 1), (r - 1, r - 1), (0, r - 1)] {
                compare(rec, |m| sel_in_place::<NARROW>(m, &a, x, y, mixed), |m| sel_in_place::<WIDE>(m, &a, x, y, mixed))?;
            }
        }
        Ok(())
    });
}
fn kind(i: u64) -> &'static str { if i % 2 == 1 { "every second cell one value" } else { "all cells wide" } }
