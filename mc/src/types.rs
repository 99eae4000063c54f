//! Other element types: nothing the other modules find may depend on the
//! elements being small, on the stack, free to copy or in their usual order.
use crate::engine::*;
use crate::model::*;
use crate::tree::drive;
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::Bound;
use std::cmp::Reverse;
use std::fmt::Debug;
use std::hash::Hash;

/// A large finite type of `N` values, partly on the heap, with a destructor.
#[derive(Clone)]
pub struct W<const N: u8> { k: u8, pad: [u64; 9], heap: Option<Box<u8>> }
impl<const N: u8> W<N> {
    fn of(k: u8) -> Self { W { k, pad: [k as u64; 9], heap: if k % 2 == 1 { Some(Box::new(k)) } else { None } } }
}
impl<const N: u8> PartialEq for W<N> { fn eq(&self, o: &Self) -> bool { self.k == o.k } }
impl<const N: u8> Eq for W<N> {}
impl<const N: u8> PartialOrd for W<N> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<const N: u8> Ord for W<N> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.k.cmp(&o.k) } }
impl<const N: u8> Hash for W<N> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.k.hash(h) } }
impl<const N: u8> Debug for W<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.k) }
}
impl<const N: u8> Finite for W<N> {
    const MINIMUM: Self = W { k: 0, pad: [0; 9], heap: None };
    const MAXIMUM: Self = W { k: N - 1, pad: [7; 9], heap: None };
    fn pred(&self) -> Option<Self> { self.k.checked_sub(1).map(Self::of) }
    fn succ(&self) -> Option<Self> { if self.k + 1 < N { Some(Self::of(self.k + 1)) } else { None } }
}
impl<const N: u8> std::ops::Sub for W<N> {
    type Output = Self;
    fn sub(self, o: Self) -> Self { W::of(self.k.checked_sub(o.k).expect("size of an inverted interval")) }
}
impl<const N: u8> W<N> { pub fn less(&self, o: &Self) -> Option<Self> { self.k.checked_sub(o.k).map(W::of) } }
pub fn wdom<const N: u8>() -> Dom<W<N>> {
    Dom { name: format!("a large heap-allocating type of {} values", N), cells: (0..N).map(|i| (W::of(i), W::of(i))).collect(), single: true }
}

// ---------------------------------------------------------------- dense layer
pub trait X: Ord + Clone + Debug + Hash + Send + Sync + 'static {}
impl<T: Ord + Clone + Debug + Hash + Send + Sync + 'static> X for T {}

/// A line whose regions are probed by `at[r]`, of some other type.
struct Other<T> { line: Line, at: Vec<T> }
impl<T: X> Other<T> {
    fn new(n: usize, f: impl Fn(usize) -> T) -> Self {
        let line = Line { n };
        let at: Vec<T> = (0..line.regions()).map(f).collect();
        assert!(at.windows(2).all(|w| w[0] < w[1]));
        Other { line, at }
    }
    fn conv(&self, r: &Raw) -> RawInterval<T> {
        use RawInterval::*;
        let x = |k: &K| self.at[k.0 as usize - 1].clone();
        match r {
            Empty => Empty, Full => Full, Point(p) => Point(x(p)), Open(a, b) => Open(x(a), x(b)), LeftOpen(a, b) => LeftOpen(x(a), x(b)),
            RightOpen(a, b) => RightOpen(x(a), x(b)), Closed(a, b) => Closed(x(a), x(b)), UpTo(p) => UpTo(x(p)), To(p) => To(x(p)),
            UpFrom(p) => UpFrom(x(p)), From(p) => From(x(p)),
        }
    }
    fn raws(&self) -> Vec<(RawInterval<T>, u128)> { self.line.raws().iter().map(|(r, m)| (self.conv(r), *m)).collect() }
    fn mask(&self, f: impl Fn(&T) -> bool) -> u128 { (0..self.at.len()).filter(|&r| f(&self.at[r])).fold(0, |m, r| m | 1 << r) }
    fn parts(&self, m: u128) -> Vec<RawInterval<T>> { self.line.parts(m).iter().map(|r| self.conv(r)).collect() }
    fn one(&self, m: u128) -> RawInterval<T> { self.conv(&self.line.one(m)) }
    fn holds(&self, t: &TineTree<T>, m: u128) -> R {
        let got = self.mask(|p| t.contains(p));
        if got != m { return Err(format!("contains {}, expected {}", self.line.show(got), self.line.show(m))); }
        let l: Vec<_> = t.interval_iter().take(self.at.len() + 1).collect();
        let got = l.iter().fold(0, |a, r| a | self.mask(|p| r.contains(p)));
        if got != m { return Err(format!("lists {:?}, expected {}", l, self.line.show(m))); }
        Ok(())
    }
    fn listing(&self, t: &TineTree<T>, m: u128) -> R {
        let l: Vec<_> = t.interval_iter().take(self.at.len() + 1).collect();
        if l != self.parts(m) { return Err(format!("lists {:?}, expected {:?}", l, self.parts(m))); }
        Ok(())
    }
}

fn raw_pairs<T: X>(cx: &mut Ctx, name: &str, o: &Other<T>) {
    let rs = o.raws();
    let k = rs.len() as u64;
    let c02 = cx.prop == "C02";
    cx.enumerate(&format!("pairs of {}", name), k * k, k, |i| format!("{:?} with {:?}", rs[(i / k) as usize].0, rs[(i % k) as usize].0), |i, rec| {
        let ((a, x), (b, y)) = (&rs[(i / k) as usize], &rs[(i % k) as usize]);
        let (x, y, full) = (*x, *y, o.line.full());
        rec.ops(5);
        rec.out(x | y << 64);
        if c02 {
            if a.enclose(b) != o.one(hull(x | y)) { return Err(format!("enclose() is {:?}", a.enclose(b))); }
            if a.closure() != o.one(o.line.close(x)) { return Err(format!("closure() is {:?}", a.closure())); }
            return Ok(());
        }
        let set = |v: &[RawInterval<T>]| v.iter().fold(0, |m, r| m | o.mask(|p| r.contains(p)));
        for (what, v, want) in [("complement", a.complement().collect::<Vec<_>>(), full & !x), ("union", a.union(b).collect(), x | y),
            ("minus", a.minus(b).collect(), x & !y), ("intersect", vec![a.intersect(b)], x & y)] {
            if set(&v) != want { return Err(format!("{} gives {:?}, expected {}", what, v, o.line.show(want))); }
            if what != "intersect" && v.iter().any(|r| r.is_empty()) { return Err(format!("{} gives {:?}", what, v)); }
        }
        if a.intersects(b) != (x & y != 0) { return Err(format!("intersects() is {}", a.intersects(b))); }
        Ok(())
    });
}

fn trees<T: X>(cx: &mut Ctx, name: &str, o: &Other<T>) {
    let rs = o.raws();
    let k = rs.len();
    let prop = cx.prop.clone();
    let p = prop.as_str();
    let singles: Vec<TineTree<T>> = rs.iter().map(|(r, _)| TineTree::from_raw_interval(r.clone())).collect();
    let inits = singles.iter().zip(&rs).map(|(t, (r, m))| (format!("from {:?}", r), t.clone(), *m)).collect();
    let nm = ["union_in_place", "minus_in_place", "intersect_in_place", "union", "minus", "intersect", "collected with"];
    let nops = if p == "C07" { 3 * k } else { 7 * k + 1 };
    let full = o.line.full();
    let sp = cx.bfs(&format!("histories over {}", name), inits, nops, 20_000, &|i| if i == 7 * k { "complement".into() } else { format!("{}({:?})", nm[i / k], rs[i % k].0) }, |mut t: TineTree<T>, i, m| {
        if i == 7 * k { return (t.complement(), full & !m); }
        let (r, x) = &rs[i % k];
        match i / k {
            0 => { t.union_in_place(r); (t, m | x) }
            1 => { t.minus_in_place(r); (t, m & !x) }
            2 => { t.intersect_in_place(r); (t, m & x) }
            3 => (t.union(&singles[i % k]), m | x),
            4 => (t.minus(&singles[i % k]), m & !x),
            5 => (t.intersect(&singles[i % k]), m & x),
            _ => (t.interval_iter().take(o.at.len() + 1).chain([r.clone()]).collect(), m | x),
        }
    }, |t, m| {
        match p {
            "C07" | "C08" => o.holds(t, m),
            "C09" => o.listing(t, m),
            "C10" => {
                let h = o.one(hull(m));
                if o.mask(|p| t.contains(p)) != m { return Err("contains() is wrong".into()); }
                if t.is_empty() != (m == 0) || t.is_full() != (m == full) { return Err(format!("is_empty() {}, is_full() {}", t.is_empty(), t.is_full())); }
                if t.lower_bound() != h.lower_bound() || t.upper_bound() != h.upper_bound() { return Err(format!("bounds {:?}, {:?}", t.lower_bound(), t.upper_bound())); }
                if t.enclose() != h { return Err(format!("enclose() {:?}", t.enclose())); }
                if t.closure() != o.one(o.line.close(m)) { return Err(format!("closure() {:?}", t.closure())); }
                Ok(())
            }
            _ => {
                let want = o.parts(m);
                let len = want.len() + 2;
                for s in 0..1u64 << len {
                    drive(t.interval_iter(), &want, s, len)?;
                    drive(t.clone().into_iter(), &want, s, len)?;
                }
                Ok(())
            }
        }
    });
    if p != "C08" && p != "C09" { return; }
    let k = sp.len() as u64;
    cx.enumerate(&format!("pairs of trees over {}", name), k * k, k, |i| format!("{} with {}", o.line.show(sp.mask[(i / k) as usize]), o.line.show(sp.mask[(i % k) as usize])), |i, rec| {
        let (a, b, x, y) = (&sp.st[(i / k) as usize], &sp.st[(i % k) as usize], sp.mask[(i / k) as usize], sp.mask[(i % k) as usize]);
        rec.ops(3);
        rec.out(x | y << 64);
        if p == "C09" && ((a == b) != (x == y) || (x == y && std_hash(a) != std_hash(b))) { return Err(format!("equality is {}", a == b)); }
        for (what, t, want) in [("union", a.union(b), x | y), ("minus", a.minus(b), x & !y), ("intersect", a.intersect(b), x & y)] {
            if p == "C08" { o.holds(&t, want) } else { o.listing(&t, want) }.map_err(|e| format!("{} {}", what, e))?;
        }
        Ok(())
    });
}

pub fn raws(cx: &mut Ctx) {
    let n = cx.pick(3, 4);
    raw_pairs(cx, "texts", &Other::new(n, |r| format!("{}{:03}", "long enough to be on the heap ", r)));
    raw_pairs(cx, "reversed integers", &Other::new(n, |r| Reverse(100 - r as i128)));
    raw_pairs(cx, "large values", &Other::new(n, |r| W::<200>::of(r as u8)));
}
pub fn dense(cx: &mut Ctx) {
    let n = cx.pick(3, 4);
    trees(cx, "texts", &Other::new(n, |r| format!("{}{:03}", "long enough to be on the heap ", r)));
    trees(cx, "reversed integers", &Other::new(n, |r| Reverse(100 - r as i128)));
    trees(cx, "large values", &Other::new(n, |r| W::<200>::of(r as u8)));
}

// ---------------------------------------------------------------- bounds
/// Merging bounds needs only a partial order: floating-point numbers too.
fn merges<T: PartialOrd + Clone + Debug + Send + Sync>(cx: &mut Ctx, name: &str, pts: Vec<T>) {
    assert!(pts.windows(2).all(|w| w[0] < w[1]));
    let mut bs: Vec<(Bound<T>, i32, i32)> = vec![(Bound::Infinite, -1, i32::MAX)];
    for (k, p) in pts.iter().enumerate() {
        bs.push((Bound::Include(p.clone()), 2 * k as i32, 2 * k as i32 + 1));
        bs.push((Bound::Exclude(p.clone()), 2 * k as i32 + 1, 2 * k as i32));
    }
    let k = bs.len() as u64;
    let pair = |i: u64| (&bs[(i / k) as usize], &bs[(i % k) as usize]);
    cx.enumerate(&format!("merging all pairs of {}", name), k * k, k, |i| format!("{:?} with {:?}", pair(i).0 .0, pair(i).1 .0), |i, rec| {
        let (a, b) = pair(i);
        rec.ops(5);
        rec.out(i as u128);
        let low = |p: i32| &bs.iter().find(|x| x.1 == p).unwrap().0;
        let upp = |p: i32| &bs.iter().find(|x| x.2 == p).unwrap().0;
        for (what, got, want) in [
            ("least_union", a.0.least_union(&b.0), low(a.1.min(b.1))), ("greatest_intersect", a.0.greatest_intersect(&b.0), low(a.1.max(b.1))),
            ("greatest_union", a.0.greatest_union(&b.0), upp(a.2.max(b.2))), ("least_intersect", a.0.least_intersect(&b.0), upp(a.2.min(b.2))),
        ] { if got != *want { return Err(format!("{} gives {:?}, expected {:?}", what, got, want)); } }
        if (a.0 == b.0) != (a.1 == b.1) { return Err(format!("equality is {}", a.0 == b.0)); }
        Ok(())
    });
}
pub fn merge(cx: &mut Ctx) {
    merges(cx, "floating-point bounds", vec![f64::NEG_INFINITY, f64::MIN, -1.5, -f64::MIN_POSITIVE, -5e-324, 0.0, 5e-324, f64::EPSILON, 1.0, 1.0 + f64::EPSILON, f64::MAX, f64::INFINITY]);
    merges(cx, "character bounds", vec!['\0', ' ', '(', ',', '9', 'a', 'Ø', '∞', char::MAX]);
    merges(cx, "text bounds", vec![String::new(), "a".into(), "a much longer text kept on the heap".into(), "b".into()]);
    merges(cx, "tuple bounds", vec![(0u8, -1i64), (0, i64::MAX), (1, i64::MIN), (255, 0)]);
    merges(cx, "reversed bounds", vec![Reverse(i128::MAX), Reverse(1), Reverse(0), Reverse(-1), Reverse(i128::MIN)]);
    merges(cx, "optional bounds", vec![None, Some(u64::MIN), Some(u64::MAX)]);
    merges(cx, "large bounds", (0..5).map(W::<5>::of).collect());
    merges(cx, "unit bounds", vec![()]);
}
fn lines<T: X>(cx: &mut Ctx, name: &str, o: &Other<T>) {
    let n = o.line.n;
    let mut bs: Vec<(Bound<T>, usize, u128, u128)> = vec![(Bound::Infinite, 0, o.line.full(), o.line.full())];
    for k in 0..n {
        let r = 2 * k + 1;
        bs.push((Bound::Include(o.at[r].clone()), r, span(r, 2 * n), span(0, r)));
        bs.push((Bound::Exclude(o.at[r].clone()), r, span(r + 1, 2 * n), span(0, r - 1)));
    }
    let k = bs.len() as u64;
    let pair = |i: u64| (&bs[(i / k) as usize], &bs[(i % k) as usize]);
    if cx.prop == "C03" {
        cx.enumerate(&format!("construct over {}", name), k * k, k, |i| format!("new({:?}, {:?})", pair(i).0 .0, pair(i).1 .0), |i, rec| {
            let (a, b) = pair(i);
            let mut want = a.2 & b.3;
            if a.1 > 0 && a.1 == b.1 { want = if a.0.is_inclusive() || b.0.is_inclusive() { 1 << a.1 } else { 0 }; }
            if a.1 > 0 && b.1 > 0 && a.1 > b.1 { want = 0; }
            rec.ops(6);
            rec.out(want);
            let got = RawInterval::new(a.0.clone(), b.0.clone());
            if got != o.one(want) { return Err(format!("gives {:?}, expected {:?}", got, o.one(want))); }
            if o.mask(|p| got.contains(p)) != want { return Err(format!("{:?} holds {}, expected {}", got, o.line.show(o.mask(|p| got.contains(p))), o.line.show(want))); }
            if got.is_empty() != (want == 0) || got.is_full() != (want == o.line.full()) { return Err(format!("{:?}: is_empty() {}, is_full() {}", got, got.is_empty(), got.is_full())); }
            if let (Some(l), Some(u)) = (got.lower_bound(), got.upper_bound()) {
                if got.infimum().as_ref() != l.as_ref() || got.supremum().as_ref() != u.as_ref() { return Err(format!("infimum {:?}, supremum {:?} of {:?}", got.infimum(), got.supremum(), got)); }
                if RawInterval::new(l, u) != got { return Err("another interval when rebuilt from its bounds".into()); }
            } else if want != 0 { return Err(format!("{:?} has no bounds", got)); }
            Ok(())
        });
        return;
    }
    let mut ts = vec![(Tine::Lower(Bound::Infinite), i32::MIN), (Tine::Upper(Bound::Infinite), i32::MAX)];
    for b in &bs[1..] { for t in [Tine::Lower(b.0.clone()), Tine::Point(b.0.clone()), Tine::Upper(b.0.clone())] { ts.push((t, b.1 as i32)); } }
    let k = ts.len() as u64;
    let pair = |i: u64| (&ts[(i / k) as usize], &ts[(i % k) as usize]);
    cx.enumerate(&format!("markers over {}", name), k * k, k, |i| format!("{:?} with {:?}", pair(i).0 .0, pair(i).1 .0), |i, rec| {
        let ((a, x), (b, y)) = pair(i);
        rec.ops(5);
        rec.out(i as u128);
        if a.cmp(b) != x.cmp(y) || a.partial_cmp(b) != Some(x.cmp(y)) { return Err(format!("compares as {:?}, expected {:?}", a.cmp(b), x.cmp(y))); }
        if x != y || a.as_ref().is_none() { return Ok(()); }
        for (what, g, w) in [("union", a.clone().union(b), cover(a) | cover(b)), ("intersect", a.clone().intersect(b), cover(a) & cover(b)), ("minus", a.clone().minus(b), cover(a) & !cover(b))] {
            let c = g.as_ref().map(cover);
            if c != if w == 0 || w == 7 { None } else { Some(w) } || g.as_ref().is_some_and(|g| g.as_ref() != a.as_ref()) { return Err(format!("{} is {:?}, expected coverage {:03b} at the same point", what, g, w)); }
        }
        let v = a.clone().invert();
        if cover(&v) != 7 & !cover(a) || v.as_ref() != a.as_ref() || v.invert() != *a { return Err("inverted wrongly".into()); }
        Ok(())
    });
}
/// Which of (left side, point, right side) a finite marker covers.
fn cover<T>(t: &Tine<T>) -> u8 {
    match t {
        Tine::Lower(Bound::Include(_)) => 0b011, Tine::Lower(Bound::Exclude(_)) => 0b001,
        Tine::Point(Bound::Include(_)) => 0b010, Tine::Point(Bound::Exclude(_)) => 0b101,
        Tine::Upper(Bound::Include(_)) => 0b110, Tine::Upper(Bound::Exclude(_)) => 0b100,
        _ => unreachable!(),
    }
}
/// Construction of raw intervals, or boundary markers, of other elements.
pub fn ends(cx: &mut Ctx) {
    let n = cx.pick(4, 8);
    lines(cx, "texts", &Other::new(n, |r| format!("{}{:03}", "long enough to be on the heap ", r)));
    lines(cx, "reversed integers", &Other::new(n, |r| Reverse(100 - r as i128)));
    lines(cx, "large values", &Other::new(n, |r| W::<200>::of(r as u8)));
    lines(cx, "characters", &Other::new(n, |r| char::from_u32(0x3B0 + r as u32).unwrap()));
}
