//! C12-C15: normalized intervals over finite types.
use crate::engine::*;
use crate::model::*;
use crate::types::wdom;
use crate::raw::{all_raw, int_pts, raw_holds, refine};
use crate::tree::{adaptors, drive, few_switches, ordered, skipping};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval};
use std::ops::Sub;

/// Applies a function to finite domains of the given sizes.
#[macro_export]
macro_rules! on_p { ($cx:expr, $f:ident, $($n:literal),*) => { $( { let d = pdom::<$n>(); let p = int_pts(&d); $f($cx, d, p); } )* } }
/// Applies a function to the cell domains of every built-in integer type.
#[macro_export]
macro_rules! on_ints { ($cx:expr, $f:ident) => { on_ints!(@ $cx, $f, dom_u8, dom_u16, dom_u32, dom_u64, dom_u128, dom_usize, dom_i8, dom_i16, dom_i32, dom_i64, dom_i128, dom_isize) };
    (@ $cx:expr, $f:ident, $($d:ident),*) => { $( { let (d, p) = refine($d()); $f($cx, d, p); } )* } }

type Made<T> = (String, Interval<T>, u128);
/// Every constructor and conversion applied to every combination of points.
/// The mask is what the description of the constructor says it holds.
fn made<T: V>(d: &Dom<T>, pts: &[T]) -> Vec<Made<T>> {
    let mut v: Vec<Made<T>> = vec![];
    let mask = |r: &RawInterval<T>| d.by_contains(|p| raw_holds(r, p)).expect("model mask");
    let full = d.full();
    v.push(("empty()".into(), Interval::empty(), 0));
    v.push(("default()".into(), Interval::default(), 0));
    v.push(("full()".into(), Interval::full(), full));
    v.push(("from(..)".into(), Interval::from(..), full));
    let (ro, c, lo, o) = (RawInterval::RightOpen::<T>, RawInterval::Closed::<T>, RawInterval::LeftOpen::<T>, RawInterval::Open::<T>);
    for p in pts {
        let q = || p.clone();
        let one = mask(&c(q(), q()));
        v.push((format!("point({:?})", p), Interval::point(q()), one));
        v.push((format!("from({:?})", p), Interval::from(q()), one));
        let ge = mask(&RawInterval::From(q()));
        let le = mask(&RawInterval::To(q()));
        v.push((format!("unbounded_from({:?})", p), Interval::unbounded_from(q()), ge));
        v.push((format!("unbounded_to({:?})", p), Interval::unbounded_to(q()), le));
        v.push((format!("unbounded_up_from({:?})", p), Interval::unbounded_up_from(q()), ge & !one));
        v.push((format!("unbounded_up_to({:?})", p), Interval::unbounded_up_to(q()), le & !one));
        v.push((format!("from({:?}..)", p), Interval::from(q()..), ge));
        v.push((format!("from(..{:?})", p), Interval::from(..q()), le & !one));
        v.push((format!("from(..={:?})", p), Interval::from(..=q()), le));
        for (nm, b, x) in [("Include", Bound::Include(q()), one), ("Exclude", Bound::Exclude(q()), 0)] {
            v.push((format!("new({}({:?}), Infinite)", nm, p), Interval::new(b.clone(), Bound::Infinite), ge & !one | x));
            v.push((format!("new(Infinite, {}({:?}))", nm, p), Interval::new(Bound::Infinite, b), le & !one | x));
        }
    }
    v.push(("new(Infinite, Infinite)".into(), Interval::new(Bound::Infinite, Bound::Infinite), full));
    for a in pts { for b in pts {
        let (x, y) = (|| a.clone(), || b.clone());
        let mc = mask(&c(x(), y()));
        // Documented: half-open constructors with identical ends give a point.
        let (mlo, mro) = if a == b { (mc, mc) } else { (mask(&lo(x(), y())), mask(&ro(x(), y()))) };
        let mo = mask(&o(x(), y()));
        let s = format!("({:?}, {:?})", a, b);
        v.push((format!("closed{}", s), Interval::closed(x(), y()), mc));
        v.push((format!("open{}", s), Interval::open(x(), y()), mo));
        v.push((format!("left_open{}", s), Interval::left_open(x(), y()), mlo));
        v.push((format!("right_open{}", s), Interval::right_open(x(), y()), mro));
        v.push((format!("left_closed{}", s), Interval::left_closed(x(), y()), mro));
        v.push((format!("right_closed{}", s), Interval::right_closed(x(), y()), mlo));
        v.push((format!("from({:?}..{:?})", a, b), Interval::from(x()..y()), mask(&ro(x(), y()))));
        v.push((format!("new(Include, Include){}", s), Interval::new(Bound::Include(x()), Bound::Include(y())), mc));
        v.push((format!("new(Include, Exclude){}", s), Interval::new(Bound::Include(x()), Bound::Exclude(y())), mro));
        v.push((format!("new(Exclude, Include){}", s), Interval::new(Bound::Exclude(x()), Bound::Include(y())), mlo));
        v.push((format!("new(Exclude, Exclude){}", s), Interval::new(Bound::Exclude(x()), Bound::Exclude(y())), mo));
    } }
    for r in all_raw(pts) { v.push((format!("from(RawInterval::{:?})", r), Interval::from(r.clone()), mask(&r))); }
    v
}
fn c12_dom<T: V>(cx: &mut Ctx, d: Dom<T>, pts: Vec<T>) {
    let v = match guard(|| made(&d, &pts)) {
        Ok(v) => v,
        Err(e) => {
            cx.enumerate(&format!("constructors[{}]", d.name), 1, 1, |_| "every constructor".into(), |_, _| Err(e.clone()));
            return;
        }
    };
    let k = v.len() as u64;
    cx.enumerate(&format!("constructors[{}]", d.name), k, k, |i| v[i as usize].0.clone(), |i, rec| {
        let (_, iv, m) = &v[i as usize];
        rec.op();
        rec.out(*m);
        let got = d.iv_mask(iv)?;
        if got != *m { return Err(format!("holds {}, expected {}", d.show(got), d.show(*m))); }
        match d.ends(*m).as_slice() {
            [] => if !iv.is_empty() || iv.lower_bound().is_some() || iv.upper_bound().is_some() { return Err(format!("{:?} is not the empty interval", iv)); },
            [(l, u)] => d.is_exactly(iv, l, u)?,
            _ => unreachable!(),
        }
        Ok(())
    });
    // One row per constructed interval: equality and hash against all.
    let hs: Vec<u64> = v.iter().map(|x| std_hash(&x.1)).collect();
    cx.enumerate(&format!("equality[{}]", d.name), k, k, |i| format!("{} == every other construction", v[i as usize].0), |i, rec| {
        let i = i as usize;
        rec.ops(k);
        for j in 0..v.len() {
            let same = v[i].2 == v[j].2;
            if (v[i].1 == v[j].1) != same || (v[i].1 != v[j].1) == same { return Err(format!("{} and {}: equality is {}", v[i].0, v[j].0, !same)); }
            if same && hs[i] != hs[j] { return Err(format!("{} and {} hold the same values but hash differently", v[i].0, v[j].0)); }
        }
        rec.out(v[i].2);
        let mut c = v[(i + 1) % v.len()].1.clone();
        c.clone_from(&v[i].1);
        for c in [c, v[i].1.clone()] { if c != v[i].1 || d.iv_mask(&c)? != v[i].2 { return Err(format!("{} cloned is {:?}", v[i].0, c)); } }
        Ok(())
    });
}
pub fn c12(cx: &mut Ctx) {
    on_p!(cx, c12_dom, 1, 2, 3, 4, 5, 6, 7, 8, 12);
    #[cfg(feature = "thorough")]
    if !cx.quick() { on_p!(cx, c12_dom, 16, 20, 28); }
    on_ints!(cx, c12_dom);
    { let d = wdom::<6>(); let p = int_pts(&d); c12_dom(cx, d, p); }
    #[cfg(feature = "thorough")]
    if !cx.quick() { every_pair16::<u16>(cx, "u16", 0, false); every_pair16::<i16>(cx, "i16", -32768, false); }
    // Every closed/half-open/open pair of an 8-bit type.
    let pts: Vec<u8> = (0..=255).collect();
    let n = 256u64 * 256;
    cx.enumerate("constructors[every pair of u8]", n * 4, n, |i| format!("{}({}, {})", ["closed", "open", "left_open", "right_open"][(i / n) as usize], i % n / 256, i % 256), |i, rec| {
        let (a, b) = ((i % n / 256) as u8, (i % 256) as u8);
        let (iv, lo, hi) = match i / n {
            0 => (Interval::closed(a, b), a as i32, b as i32), 1 => (Interval::open(a, b), a as i32 + 1, b as i32 - 1),
            2 => (Interval::left_open(a, b), a as i32 + (a != b) as i32, b as i32), _ => (Interval::right_open(a, b), a as i32, b as i32 - (a != b) as i32),
        };
        rec.op();
        for &p in &pts { if iv.contains(&p) != (lo <= p as i32 && p as i32 <= hi) { return Err(format!("{:?}: contains({}) is {}", iv, p, iv.contains(&p))); } }
        let want = if lo > hi { Interval::empty() } else { Interval::from(RawInterval::Closed(lo as u8, hi as u8)) };
        if iv != want { return Err(format!("{:?}, expected {:?}", iv, want)); }
        rec.out((lo + hi * 512) as u128);
        Ok(())
    });
}

/// Every pair of values of a 16-bit type: constructors (C12) and queries (C14)
/// against arithmetic on the values. One case per lower end.
#[cfg(feature = "thorough")]
fn every_pair16<T: V + Copy + TryFrom<i32> + Into<i32>>(cx: &mut Ctx, name: &str, min: i32, queries: bool) where T: Sub<Output = T> {
    let t = |x: i32| T::try_from(x).ok().expect("value of the type");
    let max = min + 65535;
    let n = 65536u64;
    let (what, ops) = if queries { ("queries[every interval of ", 9u64) } else { ("constructors[every pair of ", 4u64) };
    cx.enumerate(&format!("{}{}]", what, name), n, n * n, |i| format!("lower end {}, every upper end", i as i32 + min), |i, rec| {
        let a = i as i32 + min;
        for b in min..=max {
            if b % 4096 == 0 { alive(); }
            let k = if queries { 1 } else { 4 };
            for kind in 0..k {
                let (iv, lo, hi) = match kind {
                    0 => (Interval::closed(t(a), t(b)), a, b), 1 => (Interval::open(t(a), t(b)), a + 1, b - 1),
                    2 => (Interval::left_open(t(a), t(b)), a + (a != b) as i32, b), _ => (Interval::right_open(t(a), t(b)), a, b - (a != b) as i32),
                };
                let fail = |m: String| Err(format!("{} of {} and {}: {:?}: {}", ["closed", "open", "left_open", "right_open"][kind], a, b, iv, m));
                let some = lo <= hi;
                let w = |x: i32| if some { Some(t(x)) } else { None };
                if iv.infimum() != w(lo) || iv.supremum() != w(hi) { return fail(format!("expected the values from {} to {}", lo, hi)); }
                if queries {
                    if iv.is_empty() == some || iv.is_degenerate() != (lo == hi) || iv.is_proper() != (lo < hi) { return fail("emptiness tests are wrong".into()); }
                    for p in [min, max, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, (lo + hi) / 2] {
                        if (min..=max).contains(&p) && iv.contains(&t(p)) != (lo <= p && p <= hi) { return fail(format!("contains({}) is wrong", p)); }
                    }
                    if iv.lower_bound() != w(lo).map(Bound::Include) || iv.upper_bound() != w(hi).map(Bound::Include) { return fail("bounds are wrong".into()); }
                    if some && hi - lo <= max && iv.size() != Some(t(hi - lo)) { return fail(format!("size() is {:?}", iv.size())); }
                } else {
                    let want = if some { Interval::from(RawInterval::Closed(t(lo), t(hi))) } else { Interval::empty() };
                    if iv != want { return fail(format!("expected {:?}", want)); }
                }
            }
        }
        rec.ops(ops * n);
        rec.out(i as u128);
        Ok(())
    });
}

/// Pieces: disjoint, in normal form, covering the mask.
pub fn norm_pieces<T: V>(d: &Dom<T>, what: &str, it: impl Iterator<Item = Interval<T>>, want: u128) -> R {
    let v: Vec<Interval<T>> = it.take(6).collect();
    if v.len() > 5 { return Err(format!("{} yields too many pieces", what)); }
    let mut m = 0;
    for p in &v {
        let x = d.iv_mask(p)?;
        if m & x != 0 { return Err(format!("{} returned overlapping pieces {:?}", what, v)); }
        normal(d, p, x).map_err(|e| format!("{} returned {:?}: {}", what, v, e))?;
        m |= x;
    }
    if m != want { return Err(format!("{} returned {:?}, expected the values {}", what, v, d.show(want))); }
    Ok(())
}
/// The interval is the normal form of the (contiguous) mask.
pub fn normal<T: V>(d: &Dom<T>, iv: &Interval<T>, m: u128) -> R {
    let got = d.iv_mask(iv)?;
    if got != m { return Err(format!("{:?} holds {}, expected {}", iv, d.show(got), d.show(m))); }
    let e = d.ends(m);
    let want = match e.as_slice() { [] => Interval::empty(), [(l, u)] if l == u => Interval::point(l.clone()), [(l, u)] => Interval::closed(l.clone(), u.clone()), _ => return Err("not contiguous".into()) };
    if *iv != want || std_hash(iv) != std_hash(&want) { return Err(format!("{:?} is not in normal form", iv)); }
    if let [(l, u)] = e.as_slice() { d.is_exactly(iv, l, u)?; }
    Ok(())
}
fn c13_dom<T: V>(cx: &mut Ctx, d: Dom<T>, _p: Vec<T>) {
    let ivs = d.ivs();
    let k = ivs.len() as u64;
    cx.enumerate(&format!("complement, closure[{}]", d.name), k, k, |i| format!("{:?}", ivs[i as usize].0), |i, rec| {
        let (a, m) = &ivs[i as usize];
        rec.ops(2);
        rec.out(*m);
        norm_pieces(&d, "complement", a.complement(), d.full() & !m)?;
        normal(&d, &a.closure(), *m).map_err(|e| format!("closure: {}", e))
    });
    cx.enumerate(&format!("all pairs[{}]", d.name), k * k, k, |i| format!("{:?} op {:?}", ivs[(i / k) as usize].0, ivs[(i % k) as usize].0), |i, rec| {
        let (a, ma) = &ivs[(i / k) as usize];
        let (b, mb) = &ivs[(i % k) as usize];
        rec.ops(6);
        rec.out(ma & mb | (ma ^ mb) << 64);
        norm_pieces(&d, "union", a.union(b), ma | mb)?;
        norm_pieces(&d, "minus", a.minus(b), ma & !mb)?;
        normal(&d, &a.intersect(b), ma & mb).map_err(|e| format!("intersect: {}", e))?;
        normal(&d, &a.enclose(b), hull(ma | mb)).map_err(|e| format!("enclose: {}", e))?;
        if a.intersects(b) != (ma & mb != 0) { return Err(format!("intersects is {}", a.intersects(b))); }
        let (ea, eb) = (d.ends(*ma), d.ends(*mb));
        let adj = match (ea.first(), eb.first()) { (Some((al, au)), Some((bl, bu))) => au == bl || bu == al, _ => false };
        if a.is_adjacent_to(b) != adj { return Err(format!("is_adjacent_to is {}, expected {}", a.is_adjacent_to(b), adj)); }
        Ok(())
    });
}
pub fn c13(cx: &mut Ctx) {
    on_p!(cx, c13_dom, 1, 2, 3, 4, 5, 6, 7, 8, 12, 20);
    #[cfg(feature = "thorough")]
    if !cx.quick() { on_p!(cx, c13_dom, 32, 48); }
    on_ints!(cx, c13_dom);
    { let d = wdom::<6>(); let p = int_pts(&d); c13_dom(cx, d, p); }
    #[cfg(feature = "thorough")]
    if !cx.quick() { c13_bytes::<u8>(cx, "u8", 0); c13_bytes::<i8>(cx, "i8", -128); }
}
/// Every pair of intervals of an 8-bit type. One case per left operand; the
/// oracle is arithmetic on the ends.
#[cfg(feature = "thorough")]
fn c13_bytes<T: V + Copy + TryFrom<i32>>(cx: &mut Ctx, name: &str, min: i32) {
    let t = |x: i32| T::try_from(x).ok().expect("value of the type");
    let max = min + 255;
    let mut ends = vec![(1, 0)];
    for a in min..=max { for b in a..=max { ends.push((a, b)); } }
    let mk = |e: (i32, i32)| if e.0 > e.1 { Interval::empty() } else if e.0 == e.1 { Interval::point(t(e.0)) } else { Interval::closed(t(e.0), t(e.1)) };
    let ivs: Vec<Interval<T>> = ends.iter().map(|&e| mk(e)).collect();
    let k = ivs.len() as u64;
    cx.enumerate(&format!("all pairs[every interval of {}]", name), k, k * k, |i| format!("{:?} and every interval", ivs[i as usize]), |i, rec| {
        let (a, (al, au)) = (&ivs[i as usize], ends[i as usize]);
        for (j, b) in ivs.iter().enumerate() {
            if j % 1024 == 0 { alive(); }
            let (bl, bu) = ends[j];
            let fail = |m: String| Err(format!("with {:?}: {}", b, m));
            let (ea, eb) = (al > au, bl > bu);
            // Intersection, hull, and adjacency.
            let x = if ea || eb { (1, 0) } else { (al.max(bl), au.min(bu)) };
            let h = if ea { (bl, bu) } else if eb { (al, au) } else { (al.min(bl), au.max(bu)) };
            let got = a.intersect(b);
            if got != mk(x) { return fail(format!("intersect returned {:?}, expected {:?}", got, mk(x))); }
            if a.intersects(b) != (x.0 <= x.1) { return fail(format!("intersects is {}", a.intersects(b))); }
            let got = a.enclose(b);
            if got != mk(h) { return fail(format!("enclose returned {:?}, expected {:?}", got, mk(h))); }
            let adj = !ea && !eb && (au == bl || bu == al);
            if a.is_adjacent_to(b) != adj { return fail(format!("is_adjacent_to is {}, expected {}", a.is_adjacent_to(b), adj)); }
            // Union and difference: their pieces, as values covered.
            let covers = |what: &str, v: &[Interval<T>], inside: &dyn Fn(i32) -> bool, cuts: [i32; 4], n: std::ops::RangeInclusive<usize>| -> R {
                if !n.contains(&v.len()) || v.iter().any(|p| p.is_empty()) { return Err(format!("with {:?}: {} returned {:?}", b, what, v)); }
                for c in cuts { for p in [c - 1, c, c + 1] {
                    if p < min || p > max { continue; }
                    let hits = v.iter().filter(|x| x.contains(&t(p))).count();
                    if hits != inside(p) as usize { return Err(format!("with {:?}: {} returned {:?}: {} pieces hold {}", b, what, v, hits, p)); }
                } }
                Ok(())
            };
            let cuts = [al, au, bl, bu];
            let (ina, inb) = (|p: i32| al <= p && p <= au, |p: i32| bl <= p && p <= bu);
            let u: Vec<Interval<T>> = a.union(b).take(4).collect();
            covers("union", &u, &|p| ina(p) || inb(p), cuts, if ea && eb { 0..=0 } else if ea || eb || x.0 <= x.1 { 1..=1 } else { 1..=2 })?;
            let m: Vec<Interval<T>> = a.minus(b).take(4).collect();
            let left = !ea && (x.0 > x.1 || al < x.0);
            let right = !ea && x.0 <= x.1 && x.1 < au;
            let n = left as usize + right as usize;
            covers("minus", &m, &|p| ina(p) && !inb(p), cuts, n..=n)?;
        }
        rec.ops(6 * k);
        rec.out(i as u128);
        Ok(())
    });
}

fn c14_dom<T: V>(cx: &mut Ctx, d: Dom<T>, pts: Vec<T>, dist: impl Fn(&T, &T) -> Option<T> + Sync) where T: Sub<Output = T> {
    // Membership at every point; other queries per interval, for intervals
    // built directly and by normalization.
    let mut ivs = d.ivs();
    if let Ok(m) = guard(|| made(&d, &pts)) { ivs.extend(m.into_iter().map(|x| (x.1, x.2))); }
    let k = ivs.len() as u64;
    cx.enumerate(&format!("queries[{}]", d.name), k, k, |i| format!("{:?}", ivs[i as usize].0), |i, rec| {
        let (a, m) = &ivs[i as usize];
        let m = *m;
        rec.ops(24);
        rec.out(m);
        let got = d.iv_mask(a)?;
        if got != m { return Err(format!("contains the values {}, expected {}", d.show(got), d.show(m))); }
        let e = d.ends(m);
        let e = e.first();
        let single = e.is_some_and(|(l, u)| l == u);
        let expect: [(&str, bool, bool); 9] = [
            ("is_empty", a.is_empty(), m == 0), ("is_degenerate", a.is_degenerate(), single),
            ("is_proper", a.is_proper(), m != 0 && !single), ("is_open", a.is_open(), m == 0),
            ("is_closed", a.is_closed(), true), ("is_half_open", a.is_half_open(), false),
            ("is_half_closed", a.is_half_closed(), false), ("is_half_bounded", a.is_half_bounded(), false),
            ("is_bounded", a.is_bounded(), true),
        ];
        for (n, g, w) in expect { if g != w { return Err(format!("{}() is {}, expected {}", n, g, w)); } }
        for (n, g) in [("is_left_open", a.is_left_open()), ("is_right_open", a.is_right_open())] { if g { return Err(format!("{}() is true", n)); } }
        for (n, g) in [("is_left_bounded", a.is_left_bounded()), ("is_right_bounded", a.is_right_bounded())] { if !g { return Err(format!("{}() is false", n)); } }
        if m != 0 { for (n, g) in [("is_left_closed", a.is_left_closed()), ("is_right_closed", a.is_right_closed())] { if !g { return Err(format!("{}() is false", n)); } } }
        let (l, u) = (e.map(|x| x.0.clone()), e.map(|x| x.1.clone()));
        if a.infimum() != l { return Err(format!("infimum() is {:?}, expected {:?}", a.infimum(), l)); }
        if a.supremum() != u { return Err(format!("supremum() is {:?}, expected {:?}", a.supremum(), u)); }
        if a.lower_bound() != l.clone().map(Bound::Include) { return Err(format!("lower_bound() is {:?}", a.lower_bound())); }
        if a.upper_bound() != u.clone().map(Bound::Include) { return Err(format!("upper_bound() is {:?}", a.upper_bound())); }
        if a.clone().into_non_empty() != if m == 0 { None } else { Some(a.clone()) } { return Err("into_non_empty() is wrong".into()); }
        match (l, u) {
            (Some(l), Some(u)) => if let Some(w) = dist(&l, &u) { let s = a.size(); if s.as_ref() != Some(&w) { return Err(format!("size() is {:?}, expected {:?}", s, w)); } },
            _ => if a.size().is_some() { return Err("the empty interval has a size".into()); },
        }
        Ok(())
    });
}
pub fn c14(cx: &mut Ctx) {
    macro_rules! ps { ($($n:literal),*) => { $( { let d = pdom::<$n>(); let p = int_pts(&d); c14_dom(cx, d, p, |a, b| b.0.checked_sub(a.0).map(P)); } )* } }
    ps!(1, 2, 3, 4, 5, 6, 8, 12, 20);
    { let d = wdom::<6>(); let p = int_pts(&d); c14_dom(cx, d, p, |a, b| b.less(a)); }
    #[cfg(feature = "thorough")]
    if !cx.quick() { ps!(32, 48); every_pair16::<u16>(cx, "u16", 0, true); every_pair16::<i16>(cx, "i16", -32768, true); }
    macro_rules! ints { ($($f:ident),*) => { $( { let (d, p) = refine($f()); c14_dom(cx, d, p, |a, b| b.checked_sub(*a)); } )* } }
    ints!(dom_u8, dom_u16, dom_u32, dom_u64, dom_u128, dom_usize, dom_i8, dom_i16, dom_i32, dom_i64, dom_i128, dom_isize);
    // Every interval of an 8-bit type.
    let n = 256u64 * 256;
    cx.enumerate("queries[every interval of i8]", n, n, |i| format!("closed({}, {})", i as i64 / 256 - 128, i as i64 % 256 - 128), |i, rec| {
        let (a, b) = ((i / 256) as i32 - 128, (i % 256) as i32 - 128);
        let iv = Interval::closed(a as i8, b as i8);
        rec.ops(6);
        let some = a <= b;
        let w = |x: i32| if some { Some(x as i8) } else { None };
        if iv.is_empty() == some || iv.is_degenerate() != (a == b) || iv.is_proper() != (a < b) { return Err("emptiness tests are wrong".into()); }
        if iv.infimum() != w(a) || iv.supremum() != w(b) { return Err(format!("ends are {:?}, {:?}", iv.infimum(), iv.supremum())); }
        for p in -128..=127 { if iv.contains(&(p as i8)) != (a <= p && p <= b) { return Err(format!("contains({}) is {}", p, iv.contains(&(p as i8)))); } }
        if b - a <= 127 && iv.size() != w(b - a) { return Err(format!("size() is {:?}", iv.size())); }
        rec.out((b - a + 256) as u128);
        Ok(())
    });
}

fn every_iter<T: V>(iv: &Interval<T>, want: &[T], sched: u64, len: usize) -> R {
    drive(iv.iter(), want, sched, len).map_err(|e| format!("iter: {}", e))?;
    drive(iv.clone().into_iter(), want, sched, len).map_err(|e| format!("into_iter: {}", e))?;
    drive(<&Interval<T> as IntoIterator>::into_iter(iv), want, sched, len).map_err(|e| format!("into_iter of a reference: {}", e))
}
fn c15_dom<T: V>(cx: &mut Ctx, d: Dom<T>, _p: Vec<T>) {
    let ivs = d.ivs();
    let k = ivs.len() as u64;
    let total = std::sync::atomic::AtomicU64::new(0);
    cx.enumerate(&format!("all front/back schedules[{}]", d.name), k, k, |i| format!("{:?}", ivs[i as usize].0), |i, rec| {
        let (iv, m) = &ivs[i as usize];
        let want: Vec<T> = (0..d.n()).filter(|b| m >> b & 1 == 1).map(|b| d.cells[b].0.clone()).collect();
        let len = want.len() + 2;
        rec.out(*m);
        for s in 0..1u64 << len { rec.ops(3 * len as u64); every_iter(iv, &want, s, len)?; }
        total.fetch_add(3 << len, std::sync::atomic::Ordering::Relaxed);
        if d.n() <= 8 { skipping(&|| iv.iter(), &want, 4, rec)?; }
        if want.len() <= 6 {
            for l in 0..=want.len() { for s in 0..1u64 << l { ordered(&|| iv.iter(), &want, s, l, rec)?; } }
        }
        Ok(())
    });
    if let Some(s) = cx.stats.last_mut() { s.traces = total.into_inner(); s.note = "every schedule of next/next_back of length (values + 2), three iterators".into(); }
}
/// Intervals of up to `w` values next to interesting points of an integer
/// type, plus the outermost items of wide intervals.
fn c15_int<T: V>(cx: &mut Ctx, name: &str, anchors: Vec<T>, w: usize) {
    let mut cases: Vec<Vec<T>> = vec![];
    for a in &anchors {
        let mut v = vec![a.clone()];
        for _ in 1..w { cases.push(v.clone()); match v.last().unwrap().succ() { Some(n) => v.push(n), None => break } }
        cases.push(v);
    }
    let k = cases.len() as u64;
    cx.enumerate(&format!("all front/back schedules[{} windows]", name), k, k, |i| format!("{:?}..={:?}", cases[i as usize][0], cases[i as usize].last().unwrap()), |i, rec| {
        let want = &cases[i as usize];
        let iv = Interval::closed(want[0].clone(), want.last().unwrap().clone());
        let len = want.len() + 2;
        rec.out(std_hash(want) as u128);
        for s in 0..1u64 << len { rec.ops(3 * len as u64); every_iter(&iv, want, s, len)?; }
        if want.len() <= 5 {
            skipping(&|| iv.iter(), want, 3, rec)?;
            for l in 0..=want.len() { for s in 0..1u64 << l { ordered(&|| iv.iter(), want, s, l, rec)?; } }
        }
        Ok(())
    });
    let mut wide = vec![];
    for a in &anchors { for b in &anchors {
        let mut near = a.clone();
        let mut ok = true;
        for _ in 0..20 { match near.succ() { Some(n) => near = n, None => { ok = false; break } } }
        if ok && *b > near { wide.push((a.clone(), b.clone())); }
    } }
    let k = wide.len() as u64;
    cx.enumerate(&format!("outermost values[{}]", name), k, k, |i| format!("{:?}..={:?}", wide[i as usize].0, wide[i as usize].1), |i, rec| {
        let (a, b) = &wide[i as usize];
        let iv = Interval::closed(a.clone(), b.clone());
        let len = 8;
        for s in 0..1u64 << len {
            let (mut f, mut g) = (a.clone(), b.clone());
            let mut it = iv.iter();
            for c in 0..len {
                rec.op();
                let (got, want) = if s >> c & 1 == 1 { let w = g.clone(); g = g.pred().unwrap(); (it.next_back(), w) } else { let w = f.clone(); f = f.succ().unwrap(); (it.next(), w) };
                if got.as_ref() != Some(&want) { return Err(format!("call {} of {} returned {:?}, expected {:?}", c + 1, crate::tree::show_sched(s, len), got, want)); }
            }
        }
        // At least 20 values: skipping a few stays within the interval.
        for code in 0..64u32 {
            let (mut f, mut g) = (a.clone(), b.clone());
            let mut it = iv.iter();
            for j in 0..3 {
                rec.ops(2);
                let (back, k) = (code >> (2 * j) & 1 == 1, (code >> (2 * j + 1) & 1) as usize * 2);
                let h = it.size_hint();
                if h.1.is_some_and(|u| u < 21 - 3 * j as usize) { return Err(format!("size_hint() is {:?}", h)); }
                let (x, want) = if back { for _ in 0..k { g = g.pred().unwrap(); } let w = g.clone(); g = g.pred().unwrap(); (it.nth_back(k), w) }
                    else { for _ in 0..k { f = f.succ().unwrap(); } let w = f.clone(); f = f.succ().unwrap(); (it.nth(k), w) };
                if x.as_ref() != Some(&want) { return Err(format!("call {} of skipping schedule {:#o} returned {:?}, expected {:?}", j + 1, code, x, want)); }
            }
        }
        rec.out(std_hash(&(a.clone(), b.clone())) as u128);
        Ok(())
    });
}
pub fn c15(cx: &mut Ctx) {
    on_p!(cx, c15_dom, 1, 2, 3, 4, 5, 6, 8, 12);
    { let d = wdom::<5>(); let p = int_pts(&d); c15_dom(cx, d, p); }
    #[cfg(feature = "thorough")]
    if !cx.quick() { on_p!(cx, c15_dom, 14, 17); }
    let w = cx.pick(7, 11);
    macro_rules! ints { ($($t:ident),*) => { $( {
        let mid = if $t::MIN == 0 { $t::MAX / 2 } else { 0 };
        let mut a: Vec<$t> = vec![];
        for o in 0..5 { a.extend([$t::MIN + o, $t::MAX - o, mid + o, mid - o]); }
        a.sort(); a.dedup();
        c15_int(cx, stringify!($t), a, w);
    } )* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    // Long intervals of the 8-bit types, schedules with up to one turn.
    let ends: Vec<(i8, i8)> = vec![(-128, 127), (-128, -1), (0, 127), (-1, 127), (-128, 0), (-60, 70)];
    cx.enumerate("long intervals[i8]", ends.len() as u64, ends.len() as u64, |i| format!("{:?}", ends[i as usize]), |i, rec| {
        let (a, b) = ends[i as usize];
        let iv = Interval::closed(a, b);
        let want: Vec<i8> = (a..=b).collect();
        rec.out(i as u128);
        for cut in 0..=want.len() {
            let (mut it, mut jt) = (iv.iter(), iv.iter());
            for c in 0..want.len() + 2 {
                rec.ops(2);
                let (g, w) = if c < cut { (it.next(), want.get(c)) } else { (it.next_back(), if c < want.len() { want.get(want.len() - 1 - (c - cut)) } else { None }) };
                if g.as_ref() != w { return Err(format!("{} from the front then the rest from the back: call {} gives {:?}", cut, c + 1, g)); }
                let (g, w) = if c < cut { (jt.next_back(), if c < want.len() { want.get(want.len() - 1 - c) } else { None }) } else { (jt.next(), if c < want.len() { want.get(c - cut) } else { None }) };
                if g.as_ref() != w { return Err(format!("{} from the back then the rest from the front: call {} gives {:?}", cut, c + 1, g)); }
            }
        }
        for s in few_switches(60, 2).into_iter().step_by(7) { every_iter(&Interval::closed(a, a + 57), &(a..=a + 57).collect::<Vec<_>>(), s, 60)?; }
        Ok(())
    });
}
