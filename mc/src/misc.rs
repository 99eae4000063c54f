//! C22-C24: built-in integers, bounds, boundary markers.
use crate::engine::*;
use crate::interval::{norm_pieces, normal};
use crate::model::*;
use crate::raw::{lower_half, upper_half};
use crate::selection::{canonical, holds, pairs, queries, space, Alpha};
use normalize_interval::normalize::Finite;
use normalize_interval::tine::Tine;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval, Selection};
use std::cmp::Ordering;

// ---------------------------------------------------------------- C22
fn c22_sel<T: V>(cx: &mut Ctx, d: Dom<T>) {
    let ivs = d.ivs();
    let k = ivs.len() as u64;
    cx.enumerate(&format!("interval pairs[{}]", d.name), k * k, k, |i| format!("{:?} op {:?}", ivs[(i / k) as usize].0, ivs[(i % k) as usize].0), |i, rec| {
        let (a, ma) = &ivs[(i / k) as usize];
        let (b, mb) = &ivs[(i % k) as usize];
        rec.ops(6);
        rec.out(ma & mb | (ma ^ mb) << 64);
        normal(&d, a, *ma)?;
        norm_pieces(&d, "complement", a.complement(), d.full() & !ma)?;
        norm_pieces(&d, "union", a.union(b), ma | mb)?;
        norm_pieces(&d, "minus", a.minus(b), ma & !mb)?;
        normal(&d, &a.intersect(b), ma & mb).map_err(|e| format!("intersect: {}", e))?;
        normal(&d, &a.enclose(b), hull(ma | mb)).map_err(|e| format!("enclose: {}", e))
    });
    let sp = space(cx, &d, Alpha::All, cx.pick(10_000, 50_000), &|d, s, m| { holds(d, s, m)?; canonical(d, s, m)?; queries(d, s, m) });
    if !cx.quick() { pairs(cx, &d, &sp); return; }
    // Quick: every state against a spread of states.
    let few: Vec<usize> = (0..sp.len()).step_by((sp.len() / 60).max(1)).collect();
    let (n, f) = (sp.len() as u64, few.len() as u64);
    cx.enumerate(&format!("selection pairs[{}]", d.name), n * f, n, |i| format!("{} op {}", d.show(sp.mask[(i / f) as usize]), d.show(sp.mask[few[(i % f) as usize]])), |i, rec| {
        let (x, y) = ((i / f) as usize, few[(i % f) as usize]);
        crate::selection::binary(&d, &sp.st[x], sp.mask[x], &sp.st[y], sp.mask[y], rec)
    });
}
macro_rules! walk { ($cx:expr, $t:ident) => { {
    let name = stringify!($t);
    const BITS: u32 = $t::BITS;
    $cx.enumerate(&format!("declared extremes[{}]", name), 1, 1, |_| name.to_string(), |_, rec| {
        rec.ops(2);
        if <$t as Finite>::MINIMUM != $t::MIN { return Err(format!("MINIMUM is {}", <$t as Finite>::MINIMUM)); }
        if <$t as Finite>::MAXIMUM != $t::MAX { return Err(format!("MAXIMUM is {}", <$t as Finite>::MAXIMUM)); }
        let f: Interval<$t> = Interval::full();
        if f.infimum() != Some($t::MIN) || f.supremum() != Some($t::MAX) { return Err(format!("full() is {:?}", f)); }
        Ok(())
    });
    let one = |x: $t| -> R {
        let s = if x == $t::MAX { None } else { x.checked_add(1) };
        let p = if x == $t::MIN { None } else { x.checked_sub(1) };
        if x.succ() != s { return Err(format!("{}.succ() is {:?}", x, x.succ())); }
        if x.pred() != p { return Err(format!("{}.pred() is {:?}", x, x.pred())); }
        if let Some(n) = s { if n.pred() != Some(x) { return Err(format!("{}.pred() is {:?}", n, n.pred())); } }
        Ok(())
    };
    if BITS <= 32 {
        // Every value of the type, in blocks.
        let block: u64 = if BITS <= 16 { 1 } else { 4096 };
        let n = 1u64.checked_shl(BITS).unwrap_or(0);
        $cx.enumerate(&format!("every value[{}]", name), n / block, n, |i| format!("values {} to {} above the minimum", i * block, i * block + block - 1), |i, rec| {
            rec.ops(2 * block);
            rec.out(i as u128);
            for j in 0..block { one($t::MIN.wrapping_add((i * block + j) as $t))?; }
            Ok(())
        });
    } else {
        // Windows around every power of two (both signs), zero and the extremes.
        let mut a: Vec<$t> = vec![$t::MIN, $t::MAX, 0];
        for b in 0..BITS { let x = (1 as $t) << b; a.extend([x, (0 as $t).wrapping_sub(x), $t::MAX ^ x, $t::MAX >> b]); }
        // Powers of ten and of three, repeated-byte patterns.
        for base in [10 as $t, 3, 7] { let mut x: $t = 1; while let Some(y) = x.checked_mul(base) { x = y; a.extend([x, (0 as $t).wrapping_sub(x)]); } }
        for byte in 0..=255u8 { a.push(<$t>::from_ne_bytes([byte; std::mem::size_of::<$t>()])); }
        a.sort(); a.dedup();
        let w: u64 = $cx.pick(1 << 16, 1 << 20);
        let n = a.len() as u64;
        $cx.enumerate(&format!("values near every power of two[{}]", name), n, n * (2 * w + 1), |i| format!("{} -{}..+{}", a[i as usize], w, w), |i, rec| {
            rec.ops(2 * (2 * w + 1));
            rec.out(i as u128);
            let c = a[i as usize];
            for j in 0..=w { if let Some(x) = c.checked_sub(j as $t) { one(x)?; } if let Some(x) = c.checked_add(j as $t) { one(x)?; } }
            Ok(())
        });
        let n = (BITS * BITS) as u64;
        $cx.enumerate(&format!("values near sums of two powers of two[{}]", name), n, n * 60, |i| format!("2^{} and 2^{}", i / BITS as u64, i % BITS as u64), |i, rec| {
            let (p, q) = ((1 as $t) << (i / BITS as u64), (1 as $t) << (i % BITS as u64));
            rec.out(i as u128);
            for c in [p.wrapping_add(q), p.wrapping_sub(q), (0 as $t).wrapping_sub(p.wrapping_add(q)), !(p | q)] {
                for j in 0..15 as $t { rec.ops(2); one(c.wrapping_sub(7 as $t).wrapping_add(j))?; }
            }
            Ok(())
        });
        // Every combination of telling 16-bit segments (carries from any into any).
        let seg: [u16; 7] = [0, 1, 0x1234, 0x7fff, 0x8000, 0xfffe, 0xffff];
        let parts = BITS / 16;
        let (n, inner) = (7u64.pow(parts / 2), 7u64.pow(parts - parts / 2));
        $cx.enumerate(&format!("values of telling segments[{}]", name), n, n * inner * 3, |i| format!("upper half {}", i), |i, rec| {
            rec.out(i as u128);
            rec.ops(6 * inner);
            for j in 0..inner {
                let (mut k, mut x) = (i * inner + j, 0 as $t);
                for p in 0..parts { x |= (seg[(k % 7) as usize] as $t) << (16 * p); k /= 7; }
                for y in [x.wrapping_sub(1), x, x.wrapping_add(1)] { one(y)?; }
            }
            Ok(())
        });
    }
} } }
pub fn c22(cx: &mut Ctx) {
    walk!(cx, u8); walk!(cx, i8); walk!(cx, u16); walk!(cx, i16); walk!(cx, u32); walk!(cx, i32);
    walk!(cx, u64); walk!(cx, i64); walk!(cx, u128); walk!(cx, i128); walk!(cx, usize); walk!(cx, isize);
    macro_rules! sels { ($($f:ident),*) => { $( c22_sel(cx, $f()); )* } }
    sels!(dom_u8, dom_u16, dom_u32, dom_u64, dom_u128, dom_usize, dom_i8, dom_i16, dom_i32, dom_i64, dom_i128, dom_isize);
    // Every union/difference/intersection of an interval with a value (u8).
    let n = 256u64 * 256;
    cx.enumerate("every u8 interval against boundary values", n, n, |i| format!("closed({}, {})", i / 256, i % 256), |i, rec| {
        let (a, b) = ((i / 256) as u8, (i % 256) as u8);
        rec.out(i as u128);
        for x in [0u8, 1, 127, 128, 254, 255, a, b, a.wrapping_sub(1), a.wrapping_add(1), b.wrapping_sub(1), b.wrapping_add(1)] {
            rec.ops(3);
            let base = Selection::from(Interval::closed(a, b));
            let inside = |p: u8| a <= p && p <= b;
            let (mut u, mut m, mut t) = (base.clone(), base.clone(), base.clone());
            u.union_in_place(Interval::point(x)); m.minus_in_place(Interval::point(x)); t.intersect_in_place(Interval::point(x));
            for p in [0u8, 1, 2, 126, 127, 128, 129, 253, 254, 255, x, x.wrapping_add(1), x.wrapping_sub(1), a, b, a.wrapping_sub(1), b.wrapping_add(1)] {
                if u.contains(&p) != (inside(p) || p == x) { return Err(format!("after uniting {}, contains({}) is {}", x, p, u.contains(&p))); }
                if m.contains(&p) != (inside(p) && p != x) { return Err(format!("after removing {}, contains({}) is {}", x, p, m.contains(&p))); }
                if t.contains(&p) != (inside(p) && p == x) { return Err(format!("after intersecting {}, contains({}) is {}", x, p, t.contains(&p))); }
            }
            if t.is_empty() == inside(x) { return Err(format!("after intersecting {}, is_empty() is {}", x, t.is_empty())); }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C23
pub fn c23(cx: &mut Ctx) {
    let n = cx.pick(10, 30);
    let line = Line { n };
    let mut bs: Vec<Bound<K>> = vec![Bound::Infinite];
    for k in 0..n { bs.push(Bound::Include(ep(k))); bs.push(Bound::Exclude(ep(k))); }
    let k = bs.len() as u64;
    cx.enumerate(&format!("merging all pairs[{} end points]", n), k * k, k, |i| format!("{:?} with {:?}", bs[(i / k) as usize], bs[(i % k) as usize]), |i, rec| {
        let (a, b) = (&bs[(i / k) as usize], &bs[(i % k) as usize]);
        let lo = |x: &Bound<K>| lower_half(x, &line);
        let up = |x: &Bound<K>| upper_half(x, &line);
        rec.ops(4);
        rec.out(lo(a) ^ (up(b) << 64));
        // The only bound limiting to a given half-line.
        let find = |m: u128, f: &dyn Fn(&Bound<K>) -> u128| bs.iter().find(|x| f(x) == m).cloned().expect("half-line");
        for (nm, got, want) in [
            ("least_union", a.least_union(b), find(lo(a) | lo(b), &lo)), ("greatest_intersect", a.greatest_intersect(b), find(lo(a) & lo(b), &lo)),
            ("greatest_union", a.greatest_union(b), find(up(a) | up(b), &up)), ("least_intersect", a.least_intersect(b), find(up(a) & up(b), &up)),
        ] { if got != want { return Err(format!("{} gives {:?}, expected {:?}", nm, got, want)); } }
        // Transferring the kind.
        let want = match a { Bound::Include(_) => Bound::Include(7u8), Bound::Exclude(_) => Bound::Exclude(7), Bound::Infinite => Bound::Infinite };
        if Bound::transfer(a, 7u8) != want || Bound::transfer(a.clone(), 7u8) != want { return Err("transfer is wrong".into()); }
        Ok(())
    });
    cx.enumerate(&format!("queries and maps[{} end points]", n), k, k, |i| format!("{:?}", bs[i as usize]), |i, rec| {
        let b = &bs[i as usize];
        rec.ops(14);
        rec.out(i as u128);
        let (fin, inc, exc, pt) = match b { Bound::Include(p) => (true, true, false, Some(p.clone())), Bound::Exclude(p) => (true, false, true, Some(p.clone())), Bound::Infinite => (false, false, false, None) };
        if b.is_finite() != fin || b.is_inclusive() != inc || b.is_exclusive() != exc { return Err("kind tests are wrong".into()); }
        if b.as_ref() != pt.as_ref() { return Err(format!("as_ref() is {:?}", b.as_ref())); }
        let mut c = b.clone();
        if c.as_mut().map(|x| x.clone()) != pt { return Err("as_mut() is wrong".into()); }
        if let Some(x) = c.as_mut() { x.0 += 1000; }
        let moved = match b { Bound::Include(p) => Bound::Include(K(p.0 + 1000)), Bound::Exclude(p) => Bound::Exclude(K(p.0 + 1000)), Bound::Infinite => Bound::Infinite };
        if c != moved { return Err(format!("writing through as_mut gives {:?}", c)); }
        let m = b.clone().map(|p| p.0 as i64 + 1);
        let want = match b { Bound::Include(p) => Bound::Include(p.0 as i64 + 1), Bound::Exclude(p) => Bound::Exclude(p.0 as i64 + 1), Bound::Infinite => Bound::Infinite };
        if m != want { return Err(format!("map gives {:?}", m)); }
        let d = K(999);
        if b.clone().unwrap_or(d.clone()) != pt.clone().unwrap_or(d.clone()) { return Err("unwrap_or is wrong".into()); }
        let mut calls = 0;
        if b.clone().unwrap_or_else(|| { calls += 1; d.clone() }) != pt.clone().unwrap_or(d.clone()) || calls != usize::from(!fin) { return Err("unwrap_or_else is wrong".into()); }
        if b.clone().map_or(-1, |p| p.0) != pt.as_ref().map_or(-1, |p| p.0) { return Err("map_or is wrong".into()); }
        let (mut x, mut y) = (0, 0);
        let r = b.clone().map_or_else(|| { x += 1; -1 }, |p| { y += 1; p.0 });
        if r != pt.as_ref().map_or(-1, |p| p.0) || x != usize::from(!fin) || y != usize::from(fin) { return Err("map_or_else is wrong".into()); }
        let un = guard(|| b.clone().unwrap());
        if un.ok() != pt { return Err("unwrap is wrong".into()); }
        if let Some(p) = pt { if Bound::from(p.clone()) != Bound::Include(p) { return Err("from is not inclusive".into()); } }
        if Bound::<u8>::default() != Bound::Include(0) { return Err("default is not inclusive".into()); }
        Ok(())
    });
}

// ---------------------------------------------------------------- C24
fn tines(n: usize) -> Vec<Tine<K>> {
    let mut v = vec![Tine::Lower(Bound::Infinite), Tine::Upper(Bound::Infinite)];
    for k in 0..n {
        for b in [Bound::Include(ep(k)), Bound::Exclude(ep(k))] { v.extend([Tine::Lower(b.clone()), Tine::Point(b.clone()), Tine::Upper(b)]); }
    }
    v
}
fn place(t: &Tine<K>) -> i64 {
    match t { Tine::Lower(Bound::Infinite) => i64::MIN, Tine::Upper(Bound::Infinite) => i64::MAX, t => t.as_ref().map_or(0, |k| k.0 as i64) }
}
/// Which of (left side, point, right side) a finite marker covers.
fn cover(t: &Tine<K>) -> u8 {
    match t {
        Tine::Lower(Bound::Include(_)) => 0b011, Tine::Lower(Bound::Exclude(_)) => 0b001,
        Tine::Point(Bound::Include(_)) => 0b010, Tine::Point(Bound::Exclude(_)) => 0b101,
        Tine::Upper(Bound::Include(_)) => 0b110, Tine::Upper(Bound::Exclude(_)) => 0b100,
        _ => unreachable!(),
    }
}
pub fn c24(cx: &mut Ctx) {
    let n = cx.pick(6, 12);
    let ts = tines(n);
    let k = ts.len() as u64;
    let pair = |i: u64| (&ts[(i / k) as usize], &ts[(i % k) as usize]);
    cx.enumerate(&format!("order of all pairs[{} points]", n), k * k, k, |i| format!("{:?} <=> {:?}", pair(i).0, pair(i).1), |i, rec| {
        let (a, b) = pair(i);
        let want = place(a).cmp(&place(b));
        rec.ops(6);
        rec.out((want as i8 + 1) as u128);
        if a.cmp(b) != want || a.partial_cmp(b) != Some(want) { return Err(format!("compares as {:?} / {:?}, expected {:?}", a.cmp(b), a.partial_cmp(b), want)); }
        if (a < b) != (want == Ordering::Less) || (a <= b) != (want != Ordering::Greater) || (a > b) != (want == Ordering::Greater) || (a >= b) != (want != Ordering::Less) { return Err("comparison operators disagree".into()); }
        Ok(())
    });
    cx.enumerate(&format!("kinds and inversion[{} points]", n), k, k, |i| format!("{:?}", ts[i as usize]), |i, rec| {
        let t = &ts[i as usize];
        rec.ops(8);
        rec.out(i as u128);
        let (bound, lo, up) = match t { Tine::Lower(b) => (b, true, false), Tine::Point(b) => (b, b.is_exclusive(), b.is_exclusive()), Tine::Upper(b) => (b, false, true) };
        if t.is_lower_bound() != lo || t.is_upper_bound() != up { return Err("lower/upper tests are wrong".into()); }
        let pt = matches!(t, Tine::Point(_));
        if t.is_point_include() != (pt && bound.is_inclusive()) || t.is_point_exclude() != (pt && bound.is_exclusive()) { return Err("point tests are wrong".into()); }
        if t.as_ref() != bound.as_ref() || t.clone().into_inner() != *bound { return Err("bound accessors are wrong".into()); }
        if bound.is_finite() {
            let v = t.clone().invert();
            if cover(&v) != 7 & !cover(t) || v.as_ref() != t.as_ref() { return Err(format!("inverts to {:?}", v)); }
            if v.invert() != *t { return Err("inverting twice is not the identity".into()); }
        }
        Ok(())
    });
    // Merging two markers at one point (finite, or the same infinity).
    let same: Vec<(usize, usize)> = (0..ts.len()).flat_map(|a| (0..ts.len()).map(move |b| (a, b))).filter(|&(a, b)| place(&ts[a]) == place(&ts[b])).collect();
    cx.enumerate(&format!("merging at one point[{} points]", n), same.len() as u64, k, |i| format!("{:?} with {:?}", ts[same[i as usize].0], ts[same[i as usize].1]), |i, rec| {
        let (a, b) = (&ts[same[i as usize].0], &ts[same[i as usize].1]);
        let got = [("union", a.clone().union(b)), ("intersect", a.clone().intersect(b)), ("minus", a.clone().minus(b))];
        rec.ops(3);
        rec.out(i as u128);
        if a.as_ref().is_none() {
            for (nm, g) in &got[..2] { if g.as_ref() != Some(a) { return Err(format!("{} of an infinite marker with itself is {:?}", nm, g)); } }
            if got[2].1.is_some() { return Err(format!("minus of an infinite marker with itself is {:?}", got[2].1)); }
            return Ok(());
        }
        let (x, y) = (cover(a), cover(b));
        for ((nm, g), w) in got.iter().zip([x | y, x & y, x & !y]) {
            let c = g.as_ref().map(cover);
            if c != if w == 0 || w == 7 { None } else { Some(w) } { return Err(format!("{} is {:?} (covers {:?}), expected coverage {:03b}", nm, g, c, w)); }
            if g.as_ref().is_some_and(|g| g.as_ref() != a.as_ref()) { return Err(format!("{} moved the point: {:?}", nm, g)); }
        }
        Ok(())
    });
    // Markers of every raw interval delimit exactly it.
    let line = Line { n };
    let rs = line.raws();
    cx.enumerate(&format!("markers of raw intervals[{} points]", n), rs.len() as u64, rs.len() as u64, |i| format!("{:?}", rs[i as usize].0), |i, rec| {
        let r: &RawInterval<K> = &rs[i as usize].0;
        rec.op();
        rec.out(rs[i as usize].1);
        let v: Vec<Tine<K>> = Tine::from_raw_interval(r.clone()).into_iter().collect();
        let want: Vec<Tine<K>> = match (r.lower_bound(), r.upper_bound(), r) {
            (_, _, RawInterval::Point(p)) => vec![Tine::Point(Bound::Include(p.clone()))],
            (Some(l), Some(u), _) => vec![Tine::Lower(l), Tine::Upper(u)],
            _ => vec![],
        };
        if v != want { return Err(format!("markers are {:?}, expected {:?}", v, want)); }
        Ok(())
    });
}
