//! C01-C06: the raw (dense) interval layer.
use crate::engine::*;
use crate::model::*;
use normalize_interval::normalize::Normalize;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Bound;
use std::fmt::{Debug, Display};
use std::str::FromStr;

/// Pieces must be non-empty, disjoint, maximal, and cover `want`.
fn pieces(line: &Line, what: &str, got: Vec<Raw>, want: u128) -> R {
    let mut m = 0u128;
    let ms: Vec<u128> = got.iter().map(|g| line.raw_mask(g)).collect();
    for (g, &x) in got.iter().zip(&ms) {
        if x == 0 { return Err(format!("{} returned an empty piece {:?} in {:?}", what, g, got)); }
        if m & x != 0 { return Err(format!("{} returned overlapping pieces {:?}", what, got)); }
        m |= x;
    }
    if m != want { return Err(format!("{} returned {:?}, expected the points of {}", what, got, line.show(want))); }
    if got.len() != runs(want).len() { return Err(format!("{} returned {:?}: pieces that form one interval are not joined", what, got)); }
    for g in &got { if *g != line.one(line.raw_mask(g)) { return Err(format!("{} returned the ill-formed {:?}", what, g)); } }
    Ok(())
}
fn limit<X>(it: impl Iterator<Item = X>, n: usize, what: &str) -> Result<Vec<X>, String> {
    let v: Vec<X> = it.take(n + 1).collect();
    if v.len() > n { Err(format!("{} yields more than {} items", what, n)) } else { Ok(v) }
}

pub fn c01(cx: &mut Ctx) {
    let n = cx.pick(8, 12);
    let line = Line { n };
    let rs = line.raws();
    let k = rs.len() as u64;
    cx.enumerate(&format!("complement[{} end points]", n), k, k, |i| format!("{:?}.complement()", rs[i as usize].0), |i, rec| {
        let (a, m) = &rs[i as usize];
        rec.op();
        let want = line.full() & !m;
        rec.out(want);
        pieces(&line, "complement", limit(a.complement(), 4, "complement")?, want)
    });
    cx.enumerate(&format!("pairs[{} end points]", n), k * k, k, |i| format!("{:?} op {:?}", rs[(i / k) as usize].0, rs[(i % k) as usize].0), |i, rec| {
        let (a, ma) = &rs[(i / k) as usize];
        let (b, mb) = &rs[(i % k) as usize];
        let x = a.intersect(b);
        rec.ops(4);
        rec.out(ma & mb);
        if x != line.one(ma & mb) { return Err(format!("intersect returned {:?}, expected {:?}", x, line.one(ma & mb))); }
        pieces(&line, "union", limit(a.union(b), 4, "union")?, ma | mb)?;
        pieces(&line, "minus", limit(a.minus(b), 4, "minus")?, ma & !mb)?;
        if a.intersects(b) != (ma & mb != 0) { return Err(format!("intersects is {}", a.intersects(b))); }
        Ok(())
    });
}

pub fn c02(cx: &mut Ctx) {
    let n = cx.pick(8, 12);
    let line = Line { n };
    let rs = line.raws();
    let k = rs.len() as u64;
    cx.enumerate(&format!("closure[{} end points]", n), k, k, |i| format!("{:?}.closure()", rs[i as usize].0), |i, rec| {
        let (a, m) = &rs[i as usize];
        rec.op();
        let want = line.close(*m);
        rec.out(want);
        let got = a.closure();
        if got != line.one(want) { return Err(format!("closure returned {:?}, expected {:?}", got, line.one(want))); }
        Ok(())
    });
    cx.enumerate(&format!("pairs[{} end points]", n), k * k, k, |i| format!("{:?} op {:?}", rs[(i / k) as usize].0, rs[(i % k) as usize].0), |i, rec| {
        let (a, ma) = &rs[(i / k) as usize];
        let (b, mb) = &rs[(i % k) as usize];
        let want = hull(ma | mb);
        rec.ops(2);
        rec.out(want);
        let got = a.enclose(b);
        if got != line.one(want) { return Err(format!("enclose returned {:?}, expected {:?}", got, line.one(want))); }
        // Adjacent: some lower bound meets some upper bound at one finite
        // point, and at least one of the two includes it.
        let meets = |lo: u128, hi: u128| -> bool {
            if lo == 0 || hi == 0 { return false; }
            let l = lo.trailing_zeros() as usize;
            let u = 127 - hi.leading_zeros() as usize;
            if l == 0 || u == 2 * line.n { return false; }
            let (lp, linc) = if l % 2 == 1 { (l, true) } else { (l - 1, false) };
            let (up, uinc) = if u % 2 == 1 { (u, true) } else { (u + 1, false) };
            lp == up && (linc || uinc)
        };
        let adj = meets(*ma, *mb) || meets(*mb, *ma);
        if a.is_adjacent_to(b) != adj { return Err(format!("is_adjacent_to is {}, expected {}", a.is_adjacent_to(b), adj)); }
        Ok(())
    });
}

/// All bounds on the end points.
fn bounds(n: usize) -> Vec<Bound<K>> {
    let mut v = vec![Bound::Infinite];
    for k in 0..n { v.push(Bound::Include(ep(k))); v.push(Bound::Exclude(ep(k))); }
    v
}
fn pos(b: &Bound<K>) -> Option<usize> { b.as_ref().map(|k| (k.0 - 1) as usize) }
/// Regions satisfying a bound read as a lower / upper bound.
pub fn lower_half(b: &Bound<K>, line: &Line) -> u128 {
    match (b, pos(b)) {
        (Bound::Include(_), Some(r)) => span(r, 2 * line.n),
        (Bound::Exclude(_), Some(r)) => span(r + 1, 2 * line.n),
        _ => line.full(),
    }
}
pub fn upper_half(b: &Bound<K>, line: &Line) -> u128 {
    match (b, pos(b)) {
        (Bound::Include(_), Some(r)) => span(0, r),
        (Bound::Exclude(_), Some(r)) => span(0, r - 1),
        _ => line.full(),
    }
}

pub fn c03(cx: &mut Ctx) {
    let n = cx.pick(8, 16);
    let line = Line { n };
    let bs = bounds(n);
    let k = bs.len() as u64;
    cx.enumerate(&format!("construct[{} end points]", n), k * k, k, |i| format!("new({:?}, {:?})", bs[(i / k) as usize], bs[(i % k) as usize]), |i, rec| {
        let (lb, ub) = (&bs[(i / k) as usize], &bs[(i % k) as usize]);
        let mut want = lower_half(lb, &line) & upper_half(ub, &line);
        // Documented: equal ends, one included, denote the single point.
        if let (Some(p), Some(q)) = (pos(lb), pos(ub)) {
            if p == q && (lb.is_inclusive() || ub.is_inclusive()) { want = 1 << p; }
            if p > q || (p == q && !lb.is_inclusive() && !ub.is_inclusive()) { want = 0; }
        }
        rec.out(want);
        let got = RawInterval::new(lb.clone(), ub.clone());
        rec.op();
        if got != line.one(want) { return Err(format!("new returned {:?}, expected {:?}", got, line.one(want))); }
        if line.raw_mask(&got) != want { return Err(format!("{:?} contains regions {:#b}, expected {:#b}", got, line.raw_mask(&got), want)); }
        if let (Some(l), Some(u)) = (lb.as_ref().cloned(), ub.as_ref().cloned()) {
            let direct = match (lb.is_inclusive(), ub.is_inclusive()) {
                (true, true) => RawInterval::closed(l, u), (true, false) => RawInterval::right_open(l, u),
                (false, true) => RawInterval::left_open(l, u), (false, false) => RawInterval::open(l, u),
            };
            rec.op();
            if direct != got { return Err(format!("constructor gives {:?} but new gives {:?}", direct, got)); }
        }
        accessors(&line, &got, want, rec)
    });
    let rs = line.raws();
    let k = rs.len() as u64;
    cx.enumerate(&format!("accessors[{} end points]", n), k, k, |i| format!("{:?}", rs[i as usize].0), |i, rec| {
        let (a, m) = &rs[i as usize];
        rec.out(*m);
        if line.raw_mask(a) != *m { return Err(format!("{:?} contains regions {:#b}, expected {:#b}", a, line.raw_mask(a), m)); }
        accessors(&line, a, *m, rec)
    });
}
fn accessors(line: &Line, a: &Raw, m: u128, rec: &mut Rec) -> R {
    rec.ops(7);
    let (lb, ub) = (a.lower_bound(), a.upper_bound());
    if a.is_empty() != (m == 0) { return Err(format!("{:?}.is_empty() is {}", a, a.is_empty())); }
    if a.is_full() != (m == line.full()) { return Err(format!("{:?}.is_full() is {}", a, a.is_full())); }
    if m == 0 {
        if lb.is_some() || ub.is_some() || a.infimum().is_some() || a.supremum().is_some() { return Err(format!("{:?} is empty but has bounds", a)); }
        return Ok(());
    }
    let (lb, ub) = (lb.ok_or("no lower bound")?, ub.ok_or("no upper bound")?);
    let (l, u) = runs(m)[0];
    let wl = if l == 0 { Bound::Infinite } else if l % 2 == 1 { Bound::Include(probe(l)) } else { Bound::Exclude(probe(l - 1)) };
    let wu = if u == 2 * line.n { Bound::Infinite } else if u % 2 == 1 { Bound::Include(probe(u)) } else { Bound::Exclude(probe(u + 1)) };
    if lb != wl || ub != wu { return Err(format!("{:?} has bounds {:?}, {:?}; expected {:?}, {:?}", a, lb, ub, wl, wu)); }
    if a.infimum() != wl.as_ref().cloned() { return Err(format!("{:?}.infimum() is {:?}", a, a.infimum())); }
    if a.supremum() != wu.as_ref().cloned() { return Err(format!("{:?}.supremum() is {:?}", a, a.supremum())); }
    let back = RawInterval::new(lb, ub);
    if back != *a { return Err(format!("{:?} rebuilt from its bounds is {:?}", a, back)); }
    Ok(())
}

// ---------------------------------------------------------------- C04
/// Every raw interval value over a finite type, ill-ordered ends included.
pub fn all_raw<T: V>(pts: &[T]) -> Vec<RawInterval<T>> {
    use RawInterval::*;
    let mut v = vec![Empty, Full];
    for p in pts { v.extend([Point(p.clone()), UpTo(p.clone()), UpFrom(p.clone()), To(p.clone()), From(p.clone())]); }
    for a in pts { for b in pts {
        let (a, b) = (|| a.clone(), || b.clone());
        v.extend([Open(a(), b()), LeftOpen(a(), b()), RightOpen(a(), b()), Closed(a(), b())]);
    } }
    v
}
/// Independent membership oracle.
pub fn raw_holds<T: V>(r: &RawInterval<T>, p: &T) -> bool {
    use RawInterval::*;
    let (lo, hi): (Option<(&T, bool)>, Option<(&T, bool)>) = match r {
        Empty => return false,
        Full => (None, None),
        Point(q) => (Some((q, true)), Some((q, true))),
        UpTo(q) => (None, Some((q, false))), To(q) => (None, Some((q, true))),
        UpFrom(q) => (Some((q, false)), None), From(q) => (Some((q, true)), None),
        Open(a, b) => (Some((a, false)), Some((b, false))), LeftOpen(a, b) => (Some((a, false)), Some((b, true))),
        RightOpen(a, b) => (Some((a, true)), Some((b, false))), Closed(a, b) => (Some((a, true)), Some((b, true))),
    };
    lo.is_none_or(|(a, i)| p > a || (i && p == a)) && hi.is_none_or(|(b, i)| p < b || (i && p == b))
}
fn norm_form<T: V>(d: &Dom<T>, m: u128) -> RawInterval<T> {
    match d.ends(m).as_slice() {
        [] => RawInterval::Empty,
        [(a, b)] if a == b => RawInterval::Point(a.clone()),
        [(a, b)] => RawInterval::Closed(a.clone(), b.clone()),
        _ => unreachable!(),
    }
}
fn c04_dom<T: V>(cx: &mut Ctx, d: Dom<T>, pts: Vec<T>) {
    let rs = all_raw(&pts);
    let k = rs.len() as u64;
    cx.enumerate(&format!("normalize[{}]", d.name), k, k, |i| format!("{:?}", rs[i as usize]), |i, rec| {
        let r = &rs[i as usize];
        let m = d.by_contains(|p| raw_holds(r, p))?;
        rec.out(m);
        let mask = |x: &RawInterval<T>| d.by_contains(|p| x.contains(p));
        let show = |x: u128| d.show(x);
        if mask(r)? != m { return Err(format!("contains {}, expected {}", show(mask(r)?), show(m))); }
        let nf = norm_form(&d, m);
        let nz = r.clone().normalized();
        rec.ops(6);
        if nz != nf { return Err(format!("normalizes to {:?}, expected {:?}", nz, nf)); }
        let dn = r.clone().denormalized();
        if mask(&dn)? != m { return Err(format!("denormalizes to {:?} holding {}, expected {}", dn, show(mask(&dn)?), show(m))); }
        // Denormal form of the normal form: one common representation.
        let dnf = nf.clone().denormalized();
        if mask(&dnf)? != m { return Err(format!("{:?} denormalizes to {:?} holding {}", nf, dnf, show(mask(&dnf)?))); }
        let full = m == d.full();
        let want = match d.ends(m).as_slice() {
            [] => RawInterval::Empty,
            _ if full => RawInterval::Full,
            [(a, b)] => match (a.pred(), b.succ()) {
                (Some(a), Some(b)) => RawInterval::Open(a, b),
                (None, Some(b)) => RawInterval::UpTo(b),
                (Some(a), None) => RawInterval::UpFrom(a),
                (None, None) => RawInterval::Full,
            },
            _ => unreachable!(),
        };
        if dnf != want { return Err(format!("{:?} denormalizes to {:?}, expected {:?}", nf, dnf, want)); }
        if dnf.clone().normalized() != nf { return Err(format!("{:?} denormalized then normalized is {:?}", nf, dnf.clone().normalized())); }
        if dn.clone().normalized() != nf { return Err(format!("denormalized {:?} normalizes to {:?}, expected {:?}", dn, dn.clone().normalized(), nf)); }
        if nf.clone().normalized() != nf { return Err(format!("{:?} normalizes to {:?}", nf, nf.clone().normalized())); }
        if mask(&dn.clone().denormalized())? != m { return Err(format!("denormalizing twice changes the points: {:?}", dn.clone().denormalized())); }
        // In-place forms agree with the copying forms.
        let (mut x, mut y) = (r.clone(), r.clone());
        x.normalize();
        y.denormalize();
        if x != nz || y != dn { return Err("in-place and copying forms differ".into()); }
        Ok(())
    });
}
/// End points of cells (with neighbours inside wide cells) for integer types.
pub fn int_pts<T: V>(d: &Dom<T>) -> Vec<T> {
    let mut v: Vec<T> = d.cells.iter().flat_map(|(a, b)| [a.clone(), b.clone()]).collect();
    v.sort();
    v.dedup();
    v
}
/// Splits cells so that every interval between `pts` is a union of cells.
pub fn refine<T: V>(d: Dom<T>) -> (Dom<T>, Vec<T>) {
    let pts = int_pts(&d);
    let mut cells: Vec<(T, T)> = vec![];
    for (a, b) in d.cells {
        if a == b { cells.push((a, b)); continue; }
        cells.push((a.clone(), a.clone()));
        let (s, p) = (a.succ().unwrap(), b.pred().unwrap());
        if s <= p { cells.push((s, p)); }
        cells.push((b.clone(), b));
    }
    (Dom { name: d.name, cells, single: false }, pts)
}
macro_rules! for_p { ($f:ident, $cx:expr, $($n:literal),*) => { $( { let d = pdom::<$n>(); let p = int_pts(&d); $f($cx, d, p); } )* } }
pub fn c04(cx: &mut Ctx) {
    for_p!(c04_dom, cx, 1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 24);
    #[cfg(feature = "thorough")]
    if !cx.quick() { for_p!(c04_dom, cx, 48, 64, 100); }
    macro_rules! ints { ($($f:ident),*) => { $( { let (d, p) = refine($f()); c04_dom(cx, d, p); } )* } }
    ints!(dom_u8, dom_u16, dom_u32, dom_u64, dom_u128, dom_usize, dom_i8, dom_i16, dom_i32, dom_i64, dom_i128, dom_isize);
    // Every interval of the 8-bit types.
    c04_bytes::<u8>(cx, "u8", (0..=255u8).collect());
    c04_bytes::<i8>(cx, "i8", (-128..=127i8).collect());
    #[cfg(feature = "thorough")]
    if !cx.quick() { c04_words::<u16>(cx, "u16", 0); c04_words::<i16>(cx, "i16", -32768); }
}
/// Every two-ended interval of a 16-bit type, ill-ordered ends included,
/// against arithmetic on the values. One case per lower end.
#[cfg(feature = "thorough")]
fn c04_words<T: V + Copy + TryFrom<i32>>(cx: &mut Ctx, name: &str, min: i32) {
    use RawInterval::*;
    let t = |x: i32| T::try_from(x).ok().expect("value of the type");
    let max = min + 65535;
    let n = 65536u64;
    let nf = |lo: i32, hi: i32| if lo > hi { Empty } else if lo == hi { Point(t(lo)) } else { Closed(t(lo), t(hi)) };
    let df = |lo: i32, hi: i32| match (lo > hi, lo == min, hi == max) {
        (true, ..) => Empty, (_, true, true) => Full, (_, true, false) => UpTo(t(hi + 1)), (_, false, true) => UpFrom(t(lo - 1)), _ => Open(t(lo - 1), t(hi + 1)),
    };
    cx.enumerate(&format!("every-interval[{}]", name), n, n * n * 4, |i| format!("lower end {}, every upper end", i as i32 + min), |i, rec| {
        let a = i as i32 + min;
        for b in min..=max {
            if b % 4096 == 0 { alive(); }
            for (r, lo, hi) in [(Closed(t(a), t(b)), a, b), (Open(t(a), t(b)), a + 1, b - 1), (LeftOpen(t(a), t(b)), a + 1, b), (RightOpen(t(a), t(b)), a, b - 1)] {
                let got = r.normalized();
                if got != nf(lo, hi) { return Err(format!("{:?} normalizes to {:?}, expected {:?}", r, got, nf(lo, hi))); }
                let back = got.denormalized();
                if back != df(lo, hi) { return Err(format!("{:?} denormalizes to {:?}, expected {:?}", got, back, df(lo, hi))); }
                if back.normalized() != got { return Err(format!("{:?} denormalized then normalized is {:?}", got, back.normalized())); }
                let dn = r.denormalized();
                if dn.normalized() != got { return Err(format!("{:?} denormalizes to {:?}, which normalizes to {:?}", r, dn, dn.normalized())); }
            }
        }
        rec.ops(16 * n);
        rec.out(i as u128);
        Ok(())
    });
}
fn c04_bytes<T: V>(cx: &mut Ctx, name: &str, pts: Vec<T>) {
    let rs = all_raw(&pts);
    let k = rs.len() as u64;
    cx.enumerate(&format!("every-interval[{}]", name), k, k, |i| format!("{:?}", rs[i as usize]), |i, rec| {
        let r = &rs[i as usize];
        let first = pts.iter().find(|p| raw_holds(r, p));
        let last = pts.iter().rev().find(|p| raw_holds(r, p));
        let want = match (first, last) {
            (Some(a), Some(b)) if a == b => RawInterval::Point(a.clone()),
            (Some(a), Some(b)) => RawInterval::Closed(a.clone(), b.clone()),
            _ => RawInterval::Empty,
        };
        rec.ops(2);
        rec.out(std_hash(&want) as u128);
        let n = r.clone().normalized();
        if n != want { return Err(format!("normalizes to {:?}, expected {:?}", n, want)); }
        let dn = r.clone().denormalized();
        for p in &pts { if dn.contains(p) != raw_holds(r, p) { return Err(format!("denormalizes to {:?}: membership of {:?} changed", dn, p)); } }
        Ok(())
    });
}

// ---------------------------------------------------------------- C05
pub fn c05(cx: &mut Ctx) {
    for (n, len) in cx.pick(vec![(1usize, 6usize), (2, 4), (3, 3), (6, 2)], vec![(1, 7), (2, 5), (3, 4), (4, 4), (12, 2)]) {
        let line = Line { n };
        let rs = line.raws();
        let k = rs.len() as u64;
        for l in 0..=len {
            let total = k.pow(l as u32);
            let pick = |mut i: u64| -> Vec<usize> { (0..l).map(|_| { let x = (i % k) as usize; i /= k; x }).collect() };
            cx.enumerate(&format!("sequences[{} end points, length {}]", n, l), total, k, |i| format!("{:?}", pick(i).iter().map(|&x| &rs[x].0).collect::<Vec<_>>()), |i, rec| {
                let seq = pick(i);
                let it = || seq.iter().map(|&x| rs[x].0.clone());
                let and = seq.iter().fold(line.full(), |m, &x| m & rs[x].1);
                let or = seq.iter().fold(0, |m, &x| m | rs[x].1);
                rec.ops(3);
                rec.out(and ^ (or << 64));
                let x = RawInterval::intersect_all(it());
                if x != line.one(and) { return Err(format!("intersect_all returned {:?}, expected {:?}", x, line.one(and))); }
                let e = RawInterval::enclose_all(it());
                if e != line.one(hull(or)) { return Err(format!("enclose_all returned {:?}, expected {:?}", e, line.one(hull(or)))); }
                let u: Vec<Raw> = limit(RawInterval::union_all(it()), l + 1, "union_all")?;
                let got = u.iter().fold(0, |m, r| m | line.raw_mask(r));
                if got != or { return Err(format!("union_all returned {:?}, expected the points of {}", u, line.show(or))); }
                if u.iter().any(|r| line.raw_mask(r) == 0) { return Err(format!("union_all returned an empty piece: {:?}", u)); }
                let v: Vec<Raw> = it().collect();
                for j in 0..if l <= 3 { KINDS } else { 0 } {
                    rec.ops(3);
                    if RawInterval::intersect_all(kind(&v, j)) != x || RawInterval::enclose_all(kind(&v, j)) != e { return Err(format!("intersect_all or enclose_all of iterator kind {} is another one", j)); }
                    let w: Vec<Raw> = limit(RawInterval::union_all(kind(&v, j)), l + 1, "union_all")?;
                    if w.iter().fold(0, |m, r| m | line.raw_mask(r)) != or { return Err(format!("union_all of iterator kind {} returned {:?}, expected the points of {}", j, w, line.show(or))); }
                }
                // In ascending order nothing is left to join later; two
                // intervals are joined in either order.
                let low: Vec<u32> = seq.iter().map(|&x| rs[x].1).filter(|&m| m != 0).map(|m| m.trailing_zeros()).collect();
                if low.len() <= 2 || low.windows(2).all(|w| w[0] <= w[1]) {
                    let mut v = u;
                    v.sort_by_key(|r| line.raw_mask(r).trailing_zeros());
                    if v != line.parts(or) { return Err(format!("union_all returned {:?}, expected the pieces {}", v, line.show(or))); }
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- C06
fn c06_round<T>(cx: &mut Ctx, name: &str, pts: Vec<T>)
where T: Ord + Clone + Debug + Display + FromStr + Send + Sync, T::Err: Debug {
    use RawInterval::*;
    let mut v = vec![Empty, Full];
    for p in &pts { v.extend([Point(p.clone()), UpTo(p.clone()), UpFrom(p.clone()), To(p.clone()), From(p.clone())]); }
    for a in &pts { for b in &pts { if a < b {
        let (a, b) = (|| a.clone(), || b.clone());
        v.extend([Open(a(), b()), LeftOpen(a(), b()), RightOpen(a(), b()), Closed(a(), b())]);
    } } }
    let k = v.len() as u64;
    cx.enumerate(&format!("round-trip[{}]", name), k, k, |i| format!("{:?}", v[i as usize]), |i, rec| {
        let r = &v[i as usize];
        let text = r.to_string();
        rec.ops(2);
        rec.out(std_hash(&text) as u128);
        let want = notation(r);
        if text != want { return Err(format!("formats as {:?}, expected {:?}", text, want)); }
        match RawInterval::<T>::from_str(&text) {
            Ok(ref b) if b == r => {}
            o => return Err(format!("{:?} parses to {:?}", text, o)),
        }
        // Alignment/padding flags must not change the meaning of the notation.
        Ok(())
    });
    let texts: Vec<String> = v.iter().map(|r| guard(|| r.to_string()).unwrap_or_default()).collect();
    let distinct: std::collections::HashSet<&String> = texts.iter().collect();
    cx.enumerate(&format!("distinct-texts[{}]", name), 1, k, |_| format!("all {} texts", k), |_, rec| {
        rec.ops(k);
        if distinct.len() as u64 != k { return Err(format!("{} intervals give only {} texts", k, distinct.len())); }
        Ok(())
    });
}
fn notation<T: Display>(r: &RawInterval<T>) -> String {
    use RawInterval::*;
    match r {
        Empty => "Ø".into(), Full => "(-∞,∞)".into(), Point(p) => p.to_string(),
        Open(a, b) => format!("({},{})", a, b), LeftOpen(a, b) => format!("({},{}]", a, b),
        RightOpen(a, b) => format!("[{},{})", a, b), Closed(a, b) => format!("[{},{}]", a, b),
        UpTo(p) => format!("(-∞,{})", p), To(p) => format!("(-∞,{}]", p),
        UpFrom(p) => format!("({},∞)", p), From(p) => format!("[{},∞)", p),
    }
}
/// Reference parser: the interval a text denotes, or `None` when malformed.
fn reference_parse<T: Ord + Clone + FromStr>(s: &str) -> Option<RawInterval<T>> {
    use RawInterval::*;
    if s == "Ø" { return Some(Empty); }
    if let Ok(p) = s.parse() { return Some(Point(p)); }
    let comma = s.find(',')?;
    let (x, y) = (&s[..comma], &s[comma + 1..]);
    let lo: Option<(bool, T)> = if x == "(-∞" { None } else {
        let inc = match x.chars().next()? { '[' => true, '(' => false, _ => return None };
        Some((inc, x[1..].parse().ok()?))
    };
    let hi: Option<(bool, T)> = if y == "∞)" { None } else {
        let inc = match y.chars().last()? { ']' => true, ')' => false, _ => return None };
        Some((inc, y[..y.len() - 1].parse().ok()?))
    };
    Some(match (lo, hi) {
        (None, None) => Full,
        (None, Some((true, b))) => To(b), (None, Some((false, b))) => UpTo(b),
        (Some((true, a)), None) => From(a), (Some((false, a)), None) => UpFrom(a),
        (Some((i, a)), Some((j, b))) => match (a.cmp(&b), i, j) {
            (std::cmp::Ordering::Greater, _, _) => Empty,
            (std::cmp::Ordering::Equal, false, false) => Empty,
            (std::cmp::Ordering::Equal, _, _) => Point(a),
            (_, true, true) => Closed(a, b), (_, true, false) => RightOpen(a, b),
            (_, false, true) => LeftOpen(a, b), (_, false, false) => Open(a, b),
        },
    })
}
fn c06_texts<T>(cx: &mut Ctx, name: &str, alphabet: &[&str], len: usize)
where T: Ord + Clone + Debug + FromStr + Send + Sync, T::Err: Debug {
    let k = alphabet.len() as u64;
    for l in 0..=len {
        let total = k.pow(l as u32);
        let text = |mut i: u64| -> String { (0..l).map(|_| { let x = (i % k) as usize; i /= k; alphabet[x] }).collect() };
        cx.enumerate(&format!("texts[{}, {} symbols, length {}]", name, k, l), total, total, |i| format!("{:?}", text(i)), |i, rec| {
            let s = text(i);
            rec.op();
            let want = reference_parse::<T>(&s);
            rec.out(want.is_some() as u128 | (s.len() as u128) << 8);
            match (RawInterval::<T>::from_str(&s), want) {
                (Ok(a), Some(b)) if a == b => Ok(()),
                (Err(_), None) => Ok(()),
                (a, b) => Err(format!("parses to {:?}, expected {}", a, b.map_or("an error".into(), |b| format!("{:?}", b)))),
            }
        });
    }
}
/// Every text one edit (thorough: two) away from a well-formed one.
fn c06_edits<T>(cx: &mut Ctx, name: &str, pts: Vec<T>, two: bool)
where T: Ord + Clone + Debug + Display + FromStr + Send + Sync, T::Err: Debug {
    use RawInterval::*;
    let chars: Vec<char> = "()[]{}<>,;.-+∞Ø∅−_ 019x\t\n\u{a0}\u{200b}\u{0}é\u{1F600}eE".chars().collect();
    let mut v = vec![Empty, Full];
    for p in &pts { v.extend([Point(p.clone()), UpTo(p.clone()), UpFrom(p.clone()), To(p.clone()), From(p.clone())]); }
    for a in &pts { for b in &pts {
        let (a, b) = (|| a.clone(), || b.clone());
        v.extend([Open(a(), b()), LeftOpen(a(), b()), RightOpen(a(), b()), Closed(a(), b())]);
    } }
    let mut texts: Vec<String> = v.iter().map(notation).collect();
    texts.sort();
    texts.dedup();
    let edits = |s: &str| -> Vec<String> {
        let c: Vec<char> = s.chars().collect();
        let mut out = vec![];
        for i in 0..=c.len() {
            for &x in &chars {
                out.push(c[..i].iter().chain([&x]).chain(&c[i..]).collect());
                if i < c.len() { out.push(c[..i].iter().chain([&x]).chain(&c[i + 1..]).collect()); }
            }
            if i < c.len() {
                out.push(c[..i].iter().chain(&c[i + 1..]).collect());
                out.push(c[..i].iter().collect());
                out.push(c[i..].iter().collect());
                for j in i + 1..c.len() { let mut d = c.clone(); d.swap(i, j); out.push(d.into_iter().collect()); }
            }
        }
        out.push(s.repeat(2));
        out
    };
    let one = |s: &str, rec: &mut Rec| -> R {
        rec.op();
        let want = reference_parse::<T>(s);
        match (RawInterval::<T>::from_str(s), want) {
            (Ok(a), Some(b)) if a == b => Ok(()),
            (Err(_), None) => Ok(()),
            (a, b) => Err(format!("{:?} parses to {:?}, expected {}", s, a, b.map_or("an error".into(), |b| format!("{:?}", b)))),
        }
    };
    let n = texts.len() as u64;
    cx.enumerate(&format!("edited texts[{}]", name), n, n, |i| format!("edits of {:?}", texts[i as usize]), |i, rec| {
        let s = &texts[i as usize];
        rec.out(std_hash(s) as u128);
        one(s, rec)?;
        for e in edits(s) {
            guard(|| one(&e, rec)).map_err(|m| format!("{:?}: {}", e, m))??;
            if two { for f in edits(&e) { guard(|| one(&f, rec)).map_err(|m| format!("{:?}: {}", f, m))??; } }
        }
        Ok(())
    });
}
/// Long texts.
fn c06_long(cx: &mut Ctx) {
    let bits = ["(", "[", ")", "]", ",", "-", "∞", "Ø", "0", "1", " ", "é", "(-∞,", "[0,", "0]", "∞)", "1,2"];
    let k = bits.len() as u64;
    let lens = [2usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000];
    cx.enumerate("long texts", k * k * lens.len() as u64, k * k, |i| format!("{:?} then {:?}, {} times", bits[(i % k) as usize], bits[(i / k % k) as usize], lens[(i / k / k) as usize]), |i, rec| {
        let (a, b, l) = (bits[(i % k) as usize], bits[(i / k % k) as usize], lens[(i / k / k) as usize]);
        for s in [format!("{}{}", a, b.repeat(l)), format!("{}{}", a.repeat(l), b), format!("[0,{}{}", a.repeat(l), b), format!("{}{},9]", a, b.repeat(l)), format!("{}1", "0".repeat(l)), format!("[{}1,{}2]", "0".repeat(l), "0".repeat(l)), format!("({},{})", "0".repeat(l), "9".repeat(l))] {
            rec.op();
            let want = reference_parse::<i64>(&s);
            match (RawInterval::<i64>::from_str(&s), want) {
                (Ok(a), Some(b)) if a == b => {}
                (Err(_), None) => {}
                (a, b) => return Err(format!("{:?} parses to {:?}, expected {}", s, a, b.map_or("an error".into(), |b| format!("{:?}", b)))),
            }
        }
        rec.out(i as u128);
        Ok(())
    });
}
pub fn c06(cx: &mut Ctx) {
    c06_edits::<i32>(cx, "i32", vec![i32::MIN, -7, -1, 0, 1, 42, i32::MAX], false);
    c06_edits::<u8>(cx, "u8", vec![0, 9, 10, 25, 199, 255], false);
    c06_edits::<i128>(cx, "i128", vec![i128::MIN, 0, i128::MAX], false);
    c06_edits::<i8>(cx, "i8, two edits", cx.pick(vec![-1, 2], vec![-128, -1, 0, 12, 127]), true);
    c06_long(cx);
    c06_round::<i32>(cx, "i32", vec![i32::MIN, i32::MIN + 1, -100, -10, -2, -1, 0, 1, 2, 9, 10, 99, i32::MAX - 1, i32::MAX]);
    c06_round::<u8>(cx, "u8", (0..=255).step_by(cx.pick(5, 1)).collect());
    c06_round::<i8>(cx, "i8", (-128..=127i16).step_by(cx.pick(5, 1)).map(|x| x as i8).collect());
    c06_round::<u64>(cx, "u64", vec![0, 1, 9, 10, u64::MAX / 2, u64::MAX - 1, u64::MAX]);
    c06_round::<i128>(cx, "i128", vec![i128::MIN, -1, 0, 1, i128::MAX]);
    let chars = ["(", "[", ")", "]", ",", "-", "∞", "Ø", "1", "2", " "];
    c06_texts::<i32>(cx, "i32", &chars, cx.pick(6, 7));
    let tokens = ["1", "2", "-3", "(", "[", ")", "]", ",", "(-∞", "∞)", "[-∞", "∞]", "Ø", "+1", "256", "x", " ", "é"];
    c06_texts::<i32>(cx, "i32 tokens", &tokens, cx.pick(5, 6));
    c06_texts::<u8>(cx, "u8 tokens", &tokens, cx.pick(5, 5));
}
