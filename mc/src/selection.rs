//! C16-C21, C26: selections over finite types.
use crate::engine::*;
use crate::interval::normal;
use crate::model::*;
use crate::types::wdom;
use crate::raw::{all_raw, int_pts, raw_holds};
use crate::tree::{adaptors, drive, few_switches, ordered, skipping, wide_masks};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub type Sel<T> = Selection<T>;

#[derive(Clone, Copy, PartialEq)]
pub enum Alpha { InPlace, All }

/// Values held, by membership and by the listed intervals.
pub fn holds<T: V>(d: &Dom<T>, s: &Sel<T>, m: u128) -> R {
    let got = d.sel_mask(s)?;
    if got != m { return Err(format!("holds {}, expected {}", d.show(got), d.show(m))); }
    let l = listed(d, s)?;
    if d.listing(&l, m).is_ok() { return Ok(()); }
    let mut cover = 0;
    for iv in &l { cover |= d.iv_mask(iv)?; }
    if cover != m { return Err(format!("lists {:?}, expected the values {}", l, d.show(m))); }
    Ok(())
}
/// As `holds`, with membership probed only when the listing is unusual.
pub fn holds_fast<T: V>(d: &Dom<T>, s: &Sel<T>, m: u128) -> R {
    let l = listed(d, s)?;
    if d.listing(&l, m).is_ok() { return Ok(()); }
    holds(d, s, m)
}
fn listed<T: V>(d: &Dom<T>, s: &Sel<T>) -> Result<Vec<Interval<T>>, String> {
    let v: Vec<Interval<T>> = s.interval_iter().take(2 * d.n() + 2).collect();
    if v.len() > 2 * d.n() + 1 { return Err("interval_iter() does not end".into()); }
    Ok(v)
}
pub fn build<T: V>(d: &Dom<T>, m: u128) -> Sel<T> { runs(m).into_iter().map(|(i, j)| d.iv(i, j)).collect() }
pub fn build_rev<T: V>(d: &Dom<T>, m: u128) -> Sel<T> {
    let mut s = Sel::new();
    for (i, j) in runs(m).into_iter().rev() { s.union_in_place(d.iv(i, j)); }
    s
}
pub fn build_carve<T: V>(d: &Dom<T>, m: u128) -> Sel<T> {
    let mut s = Sel::full();
    for (i, j) in runs(d.full() & !m) { s.minus_in_place(d.iv(i, j)); }
    s
}
pub fn build_values<T: V>(d: &Dom<T>, m: u128) -> Sel<T> {
    (0..d.n()).filter(|i| m >> i & 1 == 1).map(|i| d.cells[i].0.clone()).collect()
}

pub fn space<T: V>(cx: &mut Ctx, d: &Dom<T>, al: Alpha, cap: usize, check: &(dyn Fn(&Dom<T>, &Sel<T>, u128) -> R + Sync)) -> Space<Sel<T>> {
    let ivs = d.ivs();
    let k = ivs.len();
    let mut inits: Vec<(String, Sel<T>, u128)> = vec![("new()".into(), Sel::new(), 0), ("empty()".into(), Sel::empty(), 0), ("default()".into(), Sel::default(), 0), ("full()".into(), Sel::full(), d.full())];
    for (iv, m) in &ivs {
        inits.push((format!("from({:?})", iv), Sel::from(iv.clone()), *m));
        inits.push((format!("collect([{:?}])", iv), std::iter::once(iv.clone()).collect(), *m));
    }
    for (i, (a, b)) in d.cells.iter().enumerate() {
        if a == b { inits.push((format!("collect([{:?}])", a), std::iter::once(a.clone()).collect(), 1 << i)); }
    }
    let singles: Vec<Sel<T>> = ivs.iter().map(|(iv, _)| Sel::from(iv.clone())).collect();
    let extra = if d.single { 3 } else { 2 };
    let nops = match al { Alpha::InPlace => 5 * k, Alpha::All => 9 * k + extra };
    let nm = ["union_in_place", "minus_in_place", "intersect_in_place", "extend", "extend with its first interval, an empty one and ", "union", "minus", "intersect", "collect its intervals in reverse after "];
    let opname = |o: usize| if o >= 9 * k { ["complement()", "collect its intervals", "collect its values"][o - 9 * k].to_string() } else { format!("{}({:?})", nm[o / k], ivs[o % k].0) };
    let full = d.full();
    let name = format!("histories[{}, {}]", d.name, if al == Alpha::All { "all operations" } else { "in-place operations" });
    cx.bfs(&name, inits, nops, cap, &opname, |mut s: Sel<T>, o, m| {
        if o >= 9 * k {
            return match o - 9 * k { 0 => (s.complement(), full & !m), 1 => (s.into_interval_iter().take(2 * d.n() + 2).collect(), m), _ => (s.iter().take(2 * d.n() + 2).collect(), m) };
        }
        let (iv, x) = &ivs[o % k];
        match o / k {
            0 => { s.union_in_place(iv.clone()); (s, m | x) }
            1 => { s.minus_in_place(iv.clone()); (s, m & !x) }
            2 => { s.intersect_in_place(iv.clone()); (s, m & x) }
            3 => { s.extend(std::iter::once(iv.clone())); (s, m | x) }
            4 => { let f: Vec<_> = s.interval_iter().take(1).collect(); s.extend(f.into_iter().chain([Interval::empty(), iv.clone()])); (s, m | x) }
            5 => (s.union(&singles[o % k]), m | x),
            6 => (s.minus(&singles[o % k]), m & !x),
            7 => (s.intersect(&singles[o % k]), m & x),
            _ => (std::iter::once(iv.clone()).chain(s.interval_iter().rev().take(2 * d.n() + 2)).collect(), m | x),
        }
    }, |s, m| check(d, s, m))
}

/// The domain of the many-interval families.
const WN: u8 = 90;
fn wide(step: usize) -> (Dom<P<WN>>, Vec<u128>) { (pdom::<WN>(), wide_masks(WN as usize, step)) }

macro_rules! sizes { ($cx:expr, $f:ident, quick: $($q:literal),* ; thorough: $($t:literal),*) => {
    if $cx.quick() { $( { let d = pdom::<$q>(); $f($cx, &d); } )* } else { #[cfg(feature = "thorough")] { $( { let d = pdom::<$t>(); $f($cx, &d); } )* } }
} }

// ---------------------------------------------------------------- C16
fn c16_dom<T: V>(cx: &mut Ctx, d: &Dom<T>) { space(cx, d, Alpha::InPlace, cx.pick(20_000, 200_000), &|d, s, m| holds(d, s, m)); }
pub fn c16(cx: &mut Ctx) {
    sizes!(cx, c16_dom, quick: 1, 2, 3, 4, 5, 8, 12; thorough: 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16);
    let d = wdom::<5>();
    c16_dom(cx, &d);
    let (d, ms) = wide(cx.pick(11, 6));
    let ivs: Vec<_> = d.ivs().into_iter().filter(|(_, m)| { let a = m.trailing_zeros(); let b = 128 - m.leading_zeros(); *m == 0 || cx.pick(a % 7 < 3 && b % 11 < 3, a % 3 < 2) }).collect();
    let k = ivs.len() as u64;
    cx.enumerate("one operation on many intervals", ms.len() as u64 * k * 4, ms.len() as u64,
        |i| format!("{} {} {:?}", d.show(ms[(i / (4 * k)) as usize]), ["union", "minus", "intersect", "extend"][(i / k % 4) as usize], ivs[(i % k) as usize].0), |i, rec| {
        let m = ms[(i / (4 * k)) as usize];
        let (iv, x) = &ivs[(i % k) as usize];
        let mut s = match i % 3 { 0 => build(&d, m), 1 => build_rev(&d, m), _ => build_carve(&d, m) };
        rec.op();
        let want = match i / k % 4 { 0 => { s.union_in_place(iv.clone()); m | x } 1 => { s.minus_in_place(iv.clone()); m & !x } 2 => { s.intersect_in_place(iv.clone()); m & x } _ => { s.extend([iv.clone(), Interval::empty()]); m | x } };
        rec.out(want);
        holds_fast(&d, &s, want)
    });
}

// ---------------------------------------------------------------- C17
pub fn binary<T: V>(d: &Dom<T>, a: &Sel<T>, ma: u128, b: &Sel<T>, mb: u128, rec: &mut Rec) -> R {
    for (op, t, want) in [("union", a.union(b), ma | mb), ("intersect", a.intersect(b), ma & mb), ("minus", a.minus(b), ma & !mb)] {
        rec.op();
        holds_fast(d, &t, want).map_err(|e| format!("{}: {}", op, e))?;
    }
    rec.op();
    rec.out(ma & mb);
    if a.intersects(b) != (ma & mb != 0) { return Err(format!("intersects is {}", a.intersects(b))); }
    Ok(())
}
pub fn pairs<T: V>(cx: &mut Ctx, d: &Dom<T>, sp: &Space<Sel<T>>) {
    let k = sp.len() as u64;
    cx.enumerate(&format!("all pairs[{}]", d.name), k * k, k, |i| format!("{} op {}", d.show(sp.mask[(i / k) as usize]), d.show(sp.mask[(i % k) as usize])), |i, rec| {
        let (x, y) = ((i / k) as usize, (i % k) as usize);
        if y == 0 { rec.op(); holds(d, &sp.st[x].complement(), d.full() & !sp.mask[x]).map_err(|e| format!("complement: {}", e))?; }
        binary(d, &sp.st[x], sp.mask[x], &sp.st[y], sp.mask[y], rec)
    });
}
fn c17_dom<T: V>(cx: &mut Ctx, d: &Dom<T>) {
    let sp = space(cx, d, Alpha::All, cx.pick(20_000, 200_000), &|d, s, m| holds(d, s, m));
    if d.n() <= cx.pick(10, 13) { pairs(cx, d, &sp); }
}
pub fn c17(cx: &mut Ctx) {
    sizes!(cx, c17_dom, quick: 1, 2, 3, 4, 5, 6, 10; thorough: 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14);
    let d = wdom::<5>();
    c17_dom(cx, &d);
    let (d, ms) = wide(cx.pick(17, 9));
    let ss: Vec<Sel<P<WN>>> = ms.iter().enumerate().map(|(i, &m)| guard(|| match i % 4 { 0 => build(&d, m), 1 => build_rev(&d, m), 2 => build_values(&d, m), _ => build_carve(&d, m) }).unwrap_or_default()).collect();
    let k = ms.len() as u64;
    cx.enumerate("pairs with many intervals", k * k, k, |i| format!("{} op {}", d.show(ms[(i / k) as usize]), d.show(ms[(i % k) as usize])), |i, rec| {
        let (x, y) = ((i / k) as usize, (i % k) as usize);
        if y == 0 { rec.op(); holds(&d, &ss[x].complement(), d.full() & !ms[x]).map_err(|e| format!("complement: {}", e))?; }
        binary(&d, &ss[x], ms[x], &ss[y], ms[y], rec)
    });
}

// ---------------------------------------------------------------- C18
pub fn canonical<T: V>(d: &Dom<T>, s: &Sel<T>, m: u128) -> R {
    let l = listed(d, s)?;
    d.listing(&l, m)?;
    let mut others = vec![("collected in order", build(d, m)), ("united in reverse order", build_rev(d, m)), ("carved from the full selection", build_carve(d, m))];
    if d.single { others.push(("collected value by value", build_values(d, m))); }
    for (how, o) in &others {
        if s != o { return Err(format!("is not equal to the same values {}: {:?} / {:?}", how, s, o)); }
        if std_hash(s) != std_hash(o) { return Err(format!("hashes differently from the same values {}", how)); }
    }
    let mut c = Sel::full();
    c.clone_from(s);
    if c != *s || s.clone() != *s { return Err(format!("is not equal to its clones {:?}, {:?}", c, s.clone())); }
    Ok(())
}
fn c18_dom<T: V>(cx: &mut Ctx, d: &Dom<T>) {
    let sp = space(cx, d, Alpha::All, cx.pick(20_000, 200_000), &canonical);
    let k = sp.len() as u64;
    if d.n() <= cx.pick(10, 12) {
        cx.enumerate(&format!("equality of all pairs[{}]", d.name), k * k, k, |i| format!("{} == {}", d.show(sp.mask[(i / k) as usize]), d.show(sp.mask[(i % k) as usize])), |i, rec| {
            let (a, b) = (&sp.st[(i / k) as usize], &sp.st[(i % k) as usize]);
            let same = sp.mask[(i / k) as usize] == sp.mask[(i % k) as usize];
            rec.op();
            rec.out(sp.mask[(i / k) as usize] ^ sp.mask[(i % k) as usize]);
            if (a == b) != same || (a != b) == same { return Err(format!("equality is {}, inequality {}", a == b, a != b)); }
            if same && std_hash(a) != std_hash(b) { return Err("equal selections hash differently".into()); }
            Ok(())
        });
    }
    if d.n() <= cx.pick(7, 9) {
        cx.enumerate(&format!("results of all pairs[{}]", d.name), k * k, k, |i| format!("{} op {}", d.show(sp.mask[(i / k) as usize]), d.show(sp.mask[(i % k) as usize])), |i, rec| {
            let (x, y) = ((i / k) as usize, (i % k) as usize);
            let (a, b, ma, mb) = (&sp.st[x], &sp.st[y], sp.mask[x], sp.mask[y]);
            for (op, t, want) in [("union", a.union(b), ma | mb), ("intersect", a.intersect(b), ma & mb), ("minus", a.minus(b), ma & !mb)] {
                rec.op();
                rec.out(want);
                canonical(d, &t, want).map_err(|e| format!("{} {}", op, e))?;
            }
            Ok(())
        });
    }
}
pub fn c18(cx: &mut Ctx) {
    sizes!(cx, c18_dom, quick: 1, 2, 3, 4, 5, 7, 10; thorough: 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14);
    let d = wdom::<5>();
    c18_dom(cx, &d);
    let (d, ms) = wide(cx.pick(11, 6));
    cx.enumerate("many intervals", ms.len() as u64, ms.len() as u64, |i| d.show(ms[i as usize]), |i, rec| {
        let m = ms[i as usize];
        let o = ms[(i as usize * 7 + 3) % ms.len()];
        rec.ops(5);
        rec.out(m);
        let s = build(&d, m);
        let t = build(&d, o);
        canonical(&d, &s, m)?;
        canonical(&d, &s.complement(), d.full() & !m).map_err(|e| format!("complement {}", e))?;
        canonical(&d, &s.union(&t), m | o).map_err(|e| format!("union with {} {}", d.show(o), e))?;
        canonical(&d, &s.minus(&t), m & !o).map_err(|e| format!("minus {} {}", d.show(o), e))?;
        canonical(&d, &s.intersect(&t), m & o).map_err(|e| format!("intersect {} {}", d.show(o), e))
    });
}

// ---------------------------------------------------------------- C19
pub fn queries<T: V>(d: &Dom<T>, s: &Sel<T>, m: u128) -> R {
    let got = d.sel_mask(s)?;
    if got != m { return Err(format!("contains the values {}, expected {}", d.show(got), d.show(m))); }
    if s.is_empty() != (m == 0) { return Err(format!("is_empty() is {}", s.is_empty())); }
    if s.is_full() != (m == d.full()) { return Err(format!("is_full() is {}", s.is_full())); }
    let h = d.ends(hull(m));
    let lo = h.first().map(|x| Bound::Include(x.0.clone()));
    let hi = h.first().map(|x| Bound::Include(x.1.clone()));
    if s.lower_bound() != lo { return Err(format!("lower_bound() is {:?}, expected {:?}", s.lower_bound(), lo)); }
    if s.upper_bound() != hi { return Err(format!("upper_bound() is {:?}, expected {:?}", s.upper_bound(), hi)); }
    normal(d, &s.enclose(), hull(m)).map_err(|e| format!("enclose(): {}", e))?;
    normal(d, &s.closure(), hull(m)).map_err(|e| format!("closure(): {}", e))?;
    if !s.is_bounded() || !s.is_left_bounded() || !s.is_right_bounded() { return Err(format!("is_bounded/left/right are {} {} {}", s.is_bounded(), s.is_left_bounded(), s.is_right_bounded())); }
    if s.is_half_bounded() { return Err("is_half_bounded() is true".into()); }
    // Infimum and supremum: bounds of the values held, at most one value
    // away, and the same for every selection with these values.
    let (inf, sup) = (s.infimum(), s.supremum());
    match h.first() {
        None => if inf.is_some() || sup.is_some() { return Err("the empty selection has an infimum or supremum".into()); },
        Some((l, u)) => {
            if inf.as_ref() != Some(l) && inf != l.pred() { return Err(format!("infimum() is {:?}, the least value is {:?}", inf, l)); }
            if sup.as_ref() != Some(u) && sup != u.succ() { return Err(format!("supremum() is {:?}, the greatest value is {:?}", sup, u)); }
        }
    }
    for o in [build(d, m), build_carve(d, m)] {
        if o.infimum() != inf || o.supremum() != sup { return Err(format!("infimum, supremum are {:?}, {:?} but {:?}, {:?} when the same values are built otherwise", inf, sup, o.infimum(), o.supremum())); }
    }
    Ok(())
}
fn c19_dom<T: V>(cx: &mut Ctx, d: &Dom<T>) { space(cx, d, Alpha::All, cx.pick(20_000, 200_000), &queries); }
pub fn c19(cx: &mut Ctx) {
    sizes!(cx, c19_dom, quick: 1, 2, 3, 4, 5, 6, 11; thorough: 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15);
    let d = wdom::<5>();
    c19_dom(cx, &d);
    let (d, ms) = wide(cx.pick(4, 2));
    cx.enumerate("many intervals", ms.len() as u64, ms.len() as u64, |i| d.show(ms[i as usize]), |i, rec| {
        let m = ms[i as usize];
        rec.ops(3);
        rec.out(m);
        queries(&d, &build(&d, m), m)?;
        queries(&d, &build_values(&d, m), m)?;
        queries(&d, &build(&d, m).complement(), d.full() & !m)
    });
}

// ---------------------------------------------------------------- C20
fn c20_dom<T: V>(cx: &mut Ctx, d: &Dom<T>) {
    let sp = space(cx, d, Alpha::All, cx.pick(20_000, 200_000), &|_, _, _| Ok(()));
    let k = sp.len() as u64;
    let vals: Vec<Vec<T>> = sp.mask.iter().map(|m| (0..d.n()).filter(|b| m >> b & 1 == 1).map(|b| d.cells[b].0.clone()).collect()).collect();
    let lists: Vec<Vec<Interval<T>>> = sp.mask.iter().map(|&m| runs(m).into_iter().map(|(i, j)| d.iv(i, j)).collect()).collect();
    let total = AtomicU64::new(0);
    cx.enumerate(&format!("all front/back schedules[{}]", d.name), k, k, |i| d.show(sp.mask[i as usize]), |i, rec| {
        let (s, v, l) = (&sp.st[i as usize], &vals[i as usize], &lists[i as usize]);
        rec.out(sp.mask[i as usize]);
        let len = l.len() + 2;
        for c in 0..1u64 << len {
            rec.ops(2 * len as u64);
            drive(s.interval_iter(), l, c, len).map_err(|e| format!("interval_iter: {}", e))?;
            drive(s.clone().into_interval_iter(), l, c, len).map_err(|e| format!("into_interval_iter: {}", e))?;
        }
        let len = v.len() + 2;
        for c in 0..1u64 << len {
            rec.ops(3 * len as u64);
            drive(s.iter(), v, c, len).map_err(|e| format!("iter: {}", e))?;
            drive(s.clone().into_iter(), v, c, len).map_err(|e| format!("into_iter: {}", e))?;
            drive(<&Sel<T> as IntoIterator>::into_iter(s), v, c, len).map_err(|e| format!("into_iter of a reference: {}", e))?;
        }
        total.fetch_add((2 << (l.len() + 2)) + (3 << (v.len() + 2)), Relaxed);
        if d.n() <= 6 {
            skipping(&|| s.iter(), v, 4, rec).map_err(|e| format!("iter: {}", e))?;
            skipping(&|| s.clone().into_iter(), v, 4, rec).map_err(|e| format!("into_iter: {}", e))?;
            skipping(&|| s.interval_iter(), l, 4, rec).map_err(|e| format!("interval_iter: {}", e))?;
            skipping(&|| s.clone().into_interval_iter(), l, 4, rec).map_err(|e| format!("into_interval_iter: {}", e))?;
        }
        if d.n() <= 6 {
            for n in 0..=v.len() { for c in 0..1u64 << n {
                ordered(&|| s.iter(), v, c, n, rec).map_err(|e| format!("iter: {}", e))?;
                ordered(&|| s.clone().into_iter(), v, c, n, rec).map_err(|e| format!("into_iter: {}", e))?;
            } }
            for n in 0..=l.len() { for c in 0..1u64 << n {
                adaptors(&|| s.interval_iter(), l, c, n, rec).map_err(|e| format!("interval_iter: {}", e))?;
                adaptors(&|| s.clone().into_interval_iter(), l, c, n, rec).map_err(|e| format!("into_interval_iter: {}", e))?;
            } }
        }
        Ok(())
    });
    if let Some(s) = cx.stats.last_mut() { s.traces = total.into_inner(); s.note = "every schedule of next/next_back of length (items + 2), five iterators".into(); }
}
pub fn c20(cx: &mut Ctx) {
    sizes!(cx, c20_dom, quick: 1, 2, 3, 4, 5, 6, 10; thorough: 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13);
    let d = wdom::<5>();
    c20_dom(cx, &d);
    let d = pdom::<40>();
    let ms = wide_masks(40, cx.pick(8, 4));
    cx.enumerate("many values, schedules with up to 2 turns", ms.len() as u64, ms.len() as u64, |i| d.show(ms[i as usize]), |i, rec| {
        let m = ms[i as usize];
        let s = build(&d, m);
        let v: Vec<P<40>> = (0..40).filter(|b| m >> b & 1 == 1).map(P).collect();
        let l: Vec<Interval<P<40>>> = runs(m).into_iter().map(|(i, j)| d.iv(i, j)).collect();
        rec.out(m);
        for c in few_switches(v.len() + 2, 2) {
            rec.ops(2 * v.len() as u64 + 4);
            drive(s.iter(), &v, c, v.len() + 2).map_err(|e| format!("iter: {}", e))?;
            drive(s.clone().into_iter(), &v, c, v.len() + 2).map_err(|e| format!("into_iter: {}", e))?;
        }
        for c in few_switches(l.len() + 2, 2) {
            rec.ops(2 * l.len() as u64 + 4);
            drive(s.interval_iter(), &l, c, l.len() + 2).map_err(|e| format!("interval_iter: {}", e))?;
            drive(s.clone().into_interval_iter(), &l, c, l.len() + 2).map_err(|e| format!("into_interval_iter: {}", e))?;
        }
        Ok(())
    });
    // Built-in types, around their extremes and zero.
    macro_rules! ints { ($($t:ident),*) => { $( {
        let mid = if $t::MIN == 0 { $t::MAX / 2 } else { 0 };
        let starts: Vec<$t> = vec![$t::MIN, $t::MIN + 1, mid - 3, mid, $t::MAX - 5];
        cx.enumerate(&format!("all front/back schedules[{}]", stringify!($t)), 64 * 5, 64 * 5, |i| format!("values at {:#b} from {}", i % 64, starts[(i / 64) as usize]), |i, rec| {
            let v: Vec<$t> = (0..6 as $t).filter(|b| (i % 64) >> *b & 1 == 1).map(|b| starts[(i / 64) as usize] + b).collect();
            let s: Sel<$t> = v.iter().copied().collect();
            let len = v.len() + 2;
            rec.out(i as u128);
            for c in 0..1u64 << len {
                rec.ops(2 * len as u64);
                drive(s.iter(), &v, c, len).map_err(|e| format!("iter: {}", e))?;
                drive(s.clone().into_iter(), &v, c, len).map_err(|e| format!("into_iter: {}", e))?;
            }
            Ok(())
        });
        // The outermost values of selections with wide intervals.
        let marks: Vec<$t> = vec![$t::MIN, $t::MIN + 3, mid - 20, mid - 1, mid, mid + 25, $t::MAX - 4, $t::MAX];
        let k = marks.len() as u64;
        cx.enumerate(&format!("outermost values[{}]", stringify!($t)), 1 << k, 1 << k, |i| format!("all values but those at {:#b} of {:?}", i, marks), |i, rec| {
            let holes: Vec<$t> = (0..k).filter(|b| i >> b & 1 == 1).map(|b| marks[b as usize]).collect();
            let mut s: Sel<$t> = Sel::full();
            for h in &holes { s.minus_in_place(Interval::point(*h)); }
            let len = 8;
            let mut front = vec![];
            let mut x = Some($t::MIN);
            while front.len() < len { let v = x.unwrap(); if !holes.contains(&v) { front.push(v); } x = v.checked_add(1); }
            let mut back = vec![];
            let mut x = Some($t::MAX);
            while back.len() < len { let v = x.unwrap(); if !holes.contains(&v) { back.push(v); } x = v.checked_sub(1); }
            rec.out(i as u128);
            for c in 0..1u64 << len {
                let (mut it, mut jt, mut f, mut b) = (s.iter(), s.clone().into_iter(), 0, 0);
                for j in 0..len {
                    rec.ops(2);
                    let (g, h, w) = if c >> j & 1 == 1 { b += 1; (it.next_back(), jt.next_back(), back[b - 1]) } else { f += 1; (it.next(), jt.next(), front[f - 1]) };
                    if g != Some(w) || h != Some(w) { return Err(format!("call {} of {} returned {:?} (owning: {:?}), expected {:?}", j + 1, crate::tree::show_sched(c, len), g, h, w)); }
                }
            }
            Ok(())
        });
    } )* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
}

// ---------------------------------------------------------------- C21
fn digits(mut i: u64, k: u64, l: usize) -> Vec<usize> { (0..l).map(|_| { let x = (i % k) as usize; i /= k; x }).collect() }
fn c21_intervals<T: V>(cx: &mut Ctx, d: &Dom<T>, len: usize) {
    let ivs = d.ivs();
    let k = ivs.len() as u64;
    for l in 0..=len {
        cx.enumerate(&format!("sequences of {} intervals[{}]", l, d.name), k.pow(l as u32), k, |i| format!("{:?}", digits(i, k, l).iter().map(|&x| &ivs[x].0).collect::<Vec<_>>()), |i, rec| {
            let q = digits(i, k, l);
            let it = || q.iter().map(|&x| ivs[x].0.clone());
            let want = q.iter().fold(0, |m, &x| m | ivs[x].1);
            rec.out(want);
            let base = build(d, want);
            let same = |how: &str, s: Sel<T>| -> R {
                holds_fast(d, &s, want).map_err(|e| format!("{}: {}", how, e))?;
                if s != base || std_hash(&s) != std_hash(&base) { return Err(format!("{} gives {:?}, not equal to {:?}", how, s, base)); }
                Ok(())
            };
            rec.ops(2 + 2 * l as u64);
            same("collect", it().collect())?;
            // An iterator that does not tell its length.
            let mut src = it();
            same("collect (unsized)", std::iter::from_fn(move || src.next()).collect())?;
            same("extend of an empty selection", { let mut s = Sel::new(); s.extend(it()); s })?;
            same("extend of an empty selection (unsized)", { let mut s = Sel::new(); s.extend(it().filter(|_| true)); s })?;
            for c in 0..=l {
                same(&format!("collect {} then extend", c), { let mut s: Sel<T> = it().take(c).collect(); s.extend(it().skip(c)); s })?;
                same(&format!("union of two parts cut at {}", c), it().take(c).collect::<Sel<T>>().union(&it().skip(c).collect()))?;
            }
            if l == 1 { same("from", Sel::from(ivs[q[0]].0.clone()))?; }
            if l <= 3 {
                let v: Vec<Interval<T>> = it().collect();
                for k in 0..KINDS {
                    rec.ops(2);
                    same(&format!("collect from iterator kind {}", k), kind(&v, k).collect())?;
                    same(&format!("extend from iterator kind {}", k), { let mut s: Sel<T> = it().take(1).collect(); s.extend(kind(&v, k)); s })?;
                }
            }
            if l > 0 { same("repeating the items", it().chain(it()).collect())?; }
            Ok(())
        });
    }
}
fn c21_values<T: V>(cx: &mut Ctx, d: &Dom<T>, len: usize) {
    let k = d.n() as u64;
    for l in 0..=len {
        cx.enumerate(&format!("sequences of {} values[{}]", l, d.name), k.pow(l as u32), k, |i| format!("{:?}", digits(i, k, l).iter().map(|&x| &d.cells[x].0).collect::<Vec<_>>()), |i, rec| {
            let q = digits(i, k, l);
            let want = q.iter().fold(0u128, |m, &x| m | 1 << x);
            rec.out(want);
            rec.ops(2);
            let base = build(d, want);
            let s: Sel<T> = q.iter().map(|&x| d.cells[x].0.clone()).collect();
            holds_fast(d, &s, want).map_err(|e| format!("collect: {}", e))?;
            if s != base || std_hash(&s) != std_hash(&base) { return Err(format!("collect gives {:?}, not equal to {:?}", s, base)); }
            let mut it = q.iter();
            let s: Sel<T> = std::iter::from_fn(|| it.next().map(|&x| d.cells[x].0.clone())).collect();
            if s != base { return Err(format!("collect from an iterator of unknown length gives {:?}, not equal to {:?}", s, base)); }
            let v: Vec<T> = q.iter().map(|&x| d.cells[x].0.clone()).collect();
            for k in 0..if l <= 4 { KINDS } else { 0 } {
                rec.op();
                let s: Sel<T> = kind(&v, k).collect();
                if s != base { return Err(format!("collect from iterator kind {} gives {:?}, not equal to {:?}", k, s, base)); }
            }
            let mut s = Sel::new();
            for &x in &q { s.union_in_place(Interval::point(d.cells[x].0.clone())); }
            if s != base { return Err(format!("one by one gives {:?}, not equal to {:?}", s, base)); }
            Ok(())
        });
    }
}
fn c21_raw(cx: &mut Ctx, n: usize, len: usize) {
    let line = Line { n };
    let rs = line.raws();
    let k = rs.len() as u64;
    for l in 0..=len {
        cx.enumerate(&format!("sequences of {} raw intervals[{} end points]", l, n), k.pow(l as u32), k, |i| format!("{:?}", digits(i, k, l).iter().map(|&x| &rs[x].0).collect::<Vec<_>>()), |i, rec| {
            let q = digits(i, k, l);
            let it = || q.iter().map(|&x| rs[x].0.clone());
            let want = q.iter().fold(0, |m, &x| m | rs[x].1);
            rec.out(want);
            rec.ops(3);
            let base = crate::tree::build(&line, want);
            let same = |how: &str, t: TineTree<K>| -> R {
                let got: Vec<Raw> = t.interval_iter().take(line.regions() + 1).collect();
                if got != line.parts(want) { return Err(format!("{} lists {:?}, expected {:?}", how, got, line.parts(want))); }
                if t != base || std_hash(&t) != std_hash(&base) { return Err(format!("{} gives {:?}, not equal to {:?}", how, t, base)); }
                Ok(())
            };
            same("collect", it().collect())?;
            same("from an iterator", TineTree::from(it()))?;
            let mut src = it();
            same("collect (unsized)", std::iter::from_fn(move || src.next()).collect())?;
            same("from an iterator (unsized)", TineTree::from(it().filter(|_| true)))?;
            same("collecting twice over", it().chain(it()).collect())?;
            let v: Vec<Raw> = it().collect();
            for k in 0..if l <= 3 { KINDS } else { 0 } {
                rec.ops(2);
                same(&format!("collect from iterator kind {}", k), kind(&v, k).collect())?;
                same(&format!("from iterator kind {}", k), TineTree::from(kind(&v, k)))?;
            }
            if l == 1 { same("from an interval", TineTree::from(rs[q[0]].0.clone()))?; same("from_raw_interval", TineTree::from_raw_interval(rs[q[0]].0.clone()))?; }
            Ok(())
        });
    }
}
/// Sequences over many intervals: each wide family in several orders.
fn c21_wide(cx: &mut Ctx) {
    let (d, ms) = wide(cx.pick(9, 4));
    cx.enumerate("orders of many intervals", ms.len() as u64 * 5, ms.len() as u64, |i| format!("{} order {}", d.show(ms[(i / 5) as usize]), i % 5), |i, rec| {
        let m = ms[(i / 5) as usize];
        let mut parts: Vec<Interval<P<WN>>> = runs(m).into_iter().map(|(i, j)| d.iv(i, j)).collect();
        // Split long runs so that touching items must merge.
        for (a, b) in runs(m) { if b > a { parts.push(d.iv(a, (a + b) / 2)); parts.push(d.iv((a + b) / 2 + 1, b)); } }
        match i % 5 {
            0 => {}
            1 => parts.reverse(),
            2 => { let n = parts.len(); let v: Vec<_> = (0..n).map(|k| parts[if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }].clone()).collect(); parts = v; }
            3 => { let n = parts.len(); let v: Vec<_> = (0..n).map(|k| parts[if k % 2 == 0 { n - 1 - k / 2 } else { k / 2 }].clone()).collect(); parts = v; }
            _ => { let (a, b): (Vec<_>, Vec<_>) = parts.iter().cloned().enumerate().partition(|x| x.0 % 2 == 1); parts = a.into_iter().chain(b).map(|x| x.1).collect(); }
        }
        rec.op();
        rec.out(m);
        let s: Sel<P<WN>> = parts.into_iter().collect();
        canonical(&d, &s, m)
    });
}
pub fn c21(cx: &mut Ctx) {
    c21_intervals(cx, &pdom::<1>(), 4);
    c21_intervals(cx, &pdom::<2>(), 4);
    c21_intervals(cx, &pdom::<3>(), cx.pick(5, 7));
    c21_intervals(cx, &pdom::<4>(), cx.pick(5, 6));
    c21_intervals(cx, &pdom::<7>(), cx.pick(3, 4));
    c21_values(cx, &pdom::<2>(), 6);
    c21_values(cx, &pdom::<5>(), cx.pick(7, 9));
    c21_values(cx, &pdom::<8>(), cx.pick(6, 7));
    c21_raw(cx, 1, 5);
    c21_raw(cx, 2, cx.pick(5, 6));
    c21_raw(cx, 3, cx.pick(4, 5));
    c21_raw(cx, 4, 3);
    c21_wide(cx);
    // Intervals made from every raw interval, ill-ordered ones included.
    let d = pdom::<5>();
    let pts = int_pts(&d);
    let rs = all_raw(&pts);
    let k = rs.len() as u64;
    cx.enumerate("pairs of converted raw intervals[values 0..5]", k * k, k, |i| format!("{:?}, {:?}", rs[(i / k) as usize], rs[(i % k) as usize]), |i, rec| {
        let (a, b) = (&rs[(i / k) as usize], &rs[(i % k) as usize]);
        let m = d.by_contains(|p| raw_holds(a, p) || raw_holds(b, p))?;
        rec.op();
        rec.out(m);
        let s: Sel<P<5>> = [a, b].into_iter().map(|r: &RawInterval<P<5>>| Interval::from(r.clone())).collect();
        canonical(&d, &s, m)
    });
}

// ---------------------------------------------------------------- C26
fn c26_dom<T: V>(cx: &mut Ctx, d: &Dom<T>) {
    // Layers agree on every pair of intervals.
    let ivs = d.ivs();
    let k = ivs.len() as u64;
    cx.enumerate(&format!("layers agree[{}]", d.name), k * k, k, |i| format!("{:?} op {:?}", ivs[(i / k) as usize].0, ivs[(i % k) as usize].0), |i, rec| {
        let (a, b) = (&ivs[(i / k) as usize].0, &ivs[(i % k) as usize].0);
        let (sa, sb) = (Sel::from(a.clone()), Sel::from(b.clone()));
        rec.ops(12);
        rec.out(ivs[(i / k) as usize].1 ^ ivs[(i % k) as usize].1 << 64);
        let inplace = |f: &dyn Fn(&mut Sel<T>)| { let mut s = sa.clone(); f(&mut s); s };
        let all: [(&str, Sel<T>, Sel<T>, Sel<T>); 3] = [
            ("union", a.union(b).collect(), sa.union(&sb), inplace(&|s| s.union_in_place(b.clone()))),
            ("minus", a.minus(b).collect(), sa.minus(&sb), inplace(&|s| s.minus_in_place(b.clone()))),
            ("intersect", std::iter::once(a.intersect(b)).collect(), sa.intersect(&sb), inplace(&|s| s.intersect_in_place(b.clone()))),
        ];
        for (op, x, y, z) in &all {
            if x != y { return Err(format!("{} of intervals gives {:?}, of selections {:?}", op, x, y)); }
            if y != z { return Err(format!("{} of selections gives {:?}, in place {:?}", op, y, z)); }
            if std_hash(x) != std_hash(y) || std_hash(y) != std_hash(z) { return Err(format!("{}: equal selections hash differently", op)); }
        }
        let c: Sel<T> = a.complement().collect();
        if c != sa.complement() { return Err(format!("complement of the interval gives {:?}, of the selection {:?}", c, sa.complement())); }
        if a.intersects(b) != sa.intersects(&sb) { return Err("intersects differs between layers".into()); }
        if a.enclose(b) != sa.union(&sb).enclose() { return Err("enclose differs between layers".into()); }
        // The tree layer, on the denormalized raw intervals listed by it.
        Ok(())
    });
    let sp = space(cx, d, Alpha::All, cx.pick(5_000, 20_000), &|_, _, _| Ok(()));
    let n = sp.len() as u64;
    cx.enumerate(&format!("laws for all pairs[{}]", d.name), n * n, n, |i| format!("A={} B={}", d.show(sp.mask[(i / n) as usize]), d.show(sp.mask[(i % n) as usize])), |i, rec| {
        let (x, y) = ((i / n) as usize, (i % n) as usize);
        let (a, b) = (&sp.st[x], &sp.st[y]);
        let (na, nb) = (a.complement(), b.complement());
        let (u, it, mi) = (a.union(b), a.intersect(b), a.minus(b));
        rec.ops(20);
        rec.out(sp.mask[x] ^ sp.mask[y] << 64);
        let laws: [(&str, &Sel<T>, &Sel<T>); 12] = [
            ("double complement", &na.complement(), a), ("De Morgan (union)", &u.complement(), &na.intersect(&nb)),
            ("De Morgan (intersection)", &it.complement(), &na.union(&nb)), ("difference by complement", &mi, &a.intersect(&nb)),
            ("union commutes", &u, &b.union(a)), ("intersection commutes", &it, &b.intersect(a)),
            ("union idempotent", &a.union(a), a), ("intersection idempotent", &a.intersect(a), a),
            ("absorption", &a.union(&it), a), ("absorption (dual)", &a.intersect(&u), a),
            ("difference and intersection partition", &mi.union(&it), a), ("difference with itself", &a.minus(a), &Sel::new()),
        ];
        for (nm, l, r) in laws { if l != r || std_hash(l) != std_hash(r) { return Err(format!("{}: {:?} / {:?}", nm, l, r)); } }
        if a.intersects(b) != !it.is_empty() { return Err("intersects disagrees with the intersection".into()); }
        // In place, one interval at a time.
        let (mut p, mut q) = (a.clone(), a.clone());
        for iv in b.interval_iter() { p.union_in_place(iv.clone()); q.minus_in_place(iv); }
        if p != u { return Err(format!("union in place gives {:?}, at once {:?}", p, u)); }
        if q != mi { return Err(format!("difference in place gives {:?}, at once {:?}", q, mi)); }
        let mut r = a.clone();
        for iv in nb.interval_iter() { r.minus_in_place(iv); }
        if r != it { return Err(format!("removing the complement in place gives {:?}, intersection {:?}", r, it)); }
        // Interval by interval.
        let w: Sel<T> = a.interval_iter().flat_map(|i| b.interval_iter().map(move |j| i.intersect(&j)).collect::<Vec<_>>()).collect();
        if w != it { return Err(format!("intersecting interval by interval gives {:?}, at once {:?}", w, it)); }
        Ok(())
    });
    if n <= cx.pick(64, 150) {
        cx.enumerate(&format!("laws for all triples[{}]", d.name), n * n * n, n, |i| format!("A={} B={} C={}", d.show(sp.mask[(i / n / n) as usize]), d.show(sp.mask[(i / n % n) as usize]), d.show(sp.mask[(i % n) as usize])), |i, rec| {
            let (a, b, c) = (&sp.st[(i / n / n) as usize], &sp.st[(i / n % n) as usize], &sp.st[(i % n) as usize]);
            rec.ops(16);
            rec.out(sp.mask[(i / n / n) as usize] ^ sp.mask[(i / n % n) as usize] << 40 ^ sp.mask[(i % n) as usize] << 80);
            let laws: [(&str, Sel<T>, Sel<T>); 4] = [
                ("union associates", a.union(b).union(c), a.union(&b.union(c))),
                ("intersection associates", a.intersect(b).intersect(c), a.intersect(&b.intersect(c))),
                ("intersection distributes", a.intersect(&b.union(c)), a.intersect(b).union(&a.intersect(c))),
                ("difference of a union", a.minus(&b.union(c)), a.minus(b).minus(c)),
            ];
            for (nm, l, r) in &laws { if l != r { return Err(format!("{}: {:?} / {:?}", nm, l, r)); } }
            Ok(())
        });
    }
}
pub fn c26(cx: &mut Ctx) {
    sizes!(cx, c26_dom, quick: 1, 2, 3, 4, 5, 6, 9; thorough: 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    let d = wdom::<5>();
    c26_dom(cx, &d);
    // The tree layer against the raw layer on the dense line.
    let n = cx.pick(5, 7);
    let line = Line { n };
    let rs = line.raws();
    let k = rs.len() as u64;
    cx.enumerate(&format!("tree and raw layers agree[{} end points]", n), k * k, k, |i| format!("{:?} op {:?}", rs[(i / k) as usize].0, rs[(i % k) as usize].0), |i, rec| {
        let (a, b) = (&rs[(i / k) as usize].0, &rs[(i % k) as usize].0);
        let (ta, tb) = (TineTree::from(a.clone()), TineTree::from(b.clone()));
        rec.ops(10);
        rec.out(rs[(i / k) as usize].1 ^ rs[(i % k) as usize].1 << 64);
        let inplace = |f: &dyn Fn(&mut TineTree<K>)| { let mut s = ta.clone(); f(&mut s); s };
        let all: [(&str, TineTree<K>, TineTree<K>, TineTree<K>); 3] = [
            ("union", a.union(b).collect(), ta.union(&tb), inplace(&|s| s.union_in_place(b))),
            ("minus", a.minus(b).collect(), ta.minus(&tb), inplace(&|s| s.minus_in_place(b))),
            ("intersect", a.intersect(b).into(), ta.intersect(&tb), inplace(&|s| s.intersect_in_place(b))),
        ];
        for (op, x, y, z) in &all {
            if x != y { return Err(format!("{} of intervals gives {:?}, of trees {:?}", op, x, y)); }
            if y != z { return Err(format!("{} of trees gives {:?}, in place {:?}", op, y, z)); }
        }
        let c: TineTree<K> = a.complement().collect();
        if c != ta.complement() { return Err(format!("complement of the interval gives {:?}, of the tree {:?}", c, ta.complement())); }
        if ta.enclose() != *a { return Err(format!("enclose of one interval is {:?}", ta.enclose())); }
        Ok(())
    });
}
