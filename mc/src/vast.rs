//! Objects of thousands of intervals: a few sizes far beyond the families of
//! hundreds, a few shapes, operands at either end, in the middle and across
//! everything. What depends on a threshold, on the depth of a recursion or on
//! the width of a counter shows here.
use crate::big::*;
use crate::engine::*;
use crate::model::*;
use crate::tree::Tree;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval, Selection};

const SHAPES: [usize; 4] = [0, 1, 6, 9];
/// Lines of so many end points or values.
fn dims(cx: &Ctx) -> Vec<usize> {
    match (cx.quick(), cx.prop.as_str()) {
        (true, "C07" | "C08" | "C10" | "C11" | "C16" | "C17" | "C19" | "C20") => vec![517, 1030, 2055, 4105, 11_000],
        (true, _) => vec![517, 1030, 2055, 4105],
        // Beyond the width of a 16-bit counter.
        (false, "C07" | "C10" | "C11") => vec![517, 700, 1030, 1600, 2055, 3000, 4105, 5000, 8200, 11_000, 16_400, 66_000],
        _ => vec![517, 700, 1030, 1600, 2055, 3000, 4105, 5000, 8200, 11_000, 16_400],
    }
}
fn cut(r: R) -> R { r.map_err(|m| if m.len() > 600 { format!("{} …", m.chars().take(600).collect::<String>()) } else { m }) }
/// Operands `(first, last)` of a line of `r` places.
fn operands(r: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in [0, 1, 2, 3, r / 2, r / 2 + 1, r - 4, r - 3, r - 2, r - 1] {
        for e in [a, a + 1, a + 3, r / 2 + 2, r - 4, r - 2, r - 1] { if a <= e && e < r { v.push((a, e)); } }
    }
    v.sort();
    v.dedup();
    v
}
/// Second operands of operations on two objects.
fn seconds(r: usize) -> Vec<Bits> {
    let mut v = vec![vec![false; r], vec![true; r]];
    for s in [vec![0], vec![r - 1], vec![r / 2], vec![0, 1, r - 1], (r / 3..r / 2).collect(), (0..r / 2).collect(), (r / 2 + 1..r).collect()] {
        let mut b = vec![false; r];
        for x in s { b[x] = true; }
        v.push(b.clone());
        v.push(not(&b));
    }
    v.push((0..r).map(|k| k % 97 < 3).collect());
    v.push((0..r).map(|k| k % 1009 == 500).collect());
    v
}
fn cases(ns: &[usize]) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = ns.iter().flat_map(|&n| SHAPES.iter().map(move |&p| (n, p))).collect();
    v.retain(|c| c.0 <= 5000 || c.1 < 2);
    v.retain(|c| c.0 <= 20_000 || c.1 == 0);
    v
}
fn find_meet(a: &[bool], b: &[bool]) -> bool { a.iter().zip(b).any(|(&x, &y)| x && y) }

pub fn trees(cx: &mut Ctx) {
    let cs = cases(&dims(cx));
    let prop = cx.prop.clone();
    let p = prop.as_str();
    // The largest cases first.
    let k = cs.len();
    let at = |i: u64| cs[k - 1 - i as usize];
    cx.enumerate("thousands of intervals", k as u64, k as u64, |i| format!("shape {} of {} end points", at(i).1, at(i).0), |i, rec| {
        let (n, s) = at(i);
        let line = Line { n };
        let r = line.regions();
        let b = pattern(s, r, 0);
        rec.out(i as u128);
        cut(tree_case(p, &line, &b, n, rec))
    });
}
fn tree_case(p: &str, line: &Line, b: &Bits, n: usize, rec: &mut Rec) -> R {
    let r = line.regions();
    let ways = if n > 5000 { 1 } else { 4 };
    match p {
        "C07" => for how in 0..ways {
            let base = tree(line, b, how);
            tree_is(line, &base, b, true).map_err(|m| format!("built in way {}: {}", how, m))?;
            if how > 1 { continue; }
            for (a, e) in operands(r) {
                let (iv, x) = (line.raw(a, e), within(r, a, e));
                for op in 0..3 {
                    rec.op();
                    let mut t = base.clone();
                    let want = match op {
                        0 => { t.union_in_place(&iv); zip(b, &x, |p, q| p | q) }
                        1 => { t.minus_in_place(&iv); zip(b, &x, |p, q| p & !q) }
                        _ => { t.intersect_in_place(&iv); zip(b, &x, |p, q| p & q) }
                    };
                    tree_is(line, &t, &want, false).map_err(|m| format!("{} {:?}: {}", ["union", "minus", "intersect"][op], iv, m))?;
                }
            }
        },
        "C08" | "C09" => {
            let t = tree(line, b, 0);
            let is = |t: &Tree, want: &Bits| if p == "C08" { tree_is(line, t, want, false) } else {
                let (got, ps) = (list(t, r)?, parts(line, want));
                if got == ps { Ok(()) } else { Err(format!("lists {:?}, expected {:?}", got, ps)) }
            };
            is(&t.complement(), &not(b)).map_err(|m| format!("complement: {}", m))?;
            rec.op();
            for (k, y) in seconds(r).iter().enumerate() {
                alive();
                if n > 5000 && k % 4 != 1 { continue; }
                let u = tree(line, y, k);
                rec.ops(6);
                let err = |what: &'static str| move |m: String| format!("{} second operand {}: {}", what, k, m);
                is(&t.union(&u), &zip(b, y, |p, q| p | q)).map_err(err("union with"))?;
                is(&u.union(&t), &zip(b, y, |p, q| p | q)).map_err(err("union in front of"))?;
                is(&t.minus(&u), &zip(b, y, |p, q| p & !q)).map_err(err("minus"))?;
                is(&u.minus(&t), &zip(b, y, |p, q| q & !p)).map_err(err("taken from"))?;
                if bruns(y).len() < 60 {
                    is(&t.intersect(&u), &zip(b, y, |p, q| p & q)).map_err(err("intersect with"))?;
                    is(&u.intersect(&t), &zip(b, y, |p, q| p & q)).map_err(err("intersect from"))?;
                }
            }
            if p == "C09" {
                for how in 1..ways {
                    let u = tree(line, b, how);
                    rec.op();
                    if t != u || std_hash(&t) != std_hash(&u) { return Err(format!("built in way {} is not equal", how)); }
                }
                let v = parts(line, b);
                for o in 1..ORDERS {
                    let u: Tree = order(o, v.len()).into_iter().map(|i| { alive(); v[i].clone() }).collect();
                    rec.op();
                    if t != u || std_hash(&t) != std_hash(&u) { return Err(format!("collected in order {} is not equal", o)); }
                }
                for x in [0, 1, r / 3, r / 2, r - 2, r - 1] {
                    let mut u = t.clone();
                    if b[x] { u.minus_in_place(&line.raw(x, x)); } else { u.union_in_place(&line.raw(x, x)); }
                    if u == t { return Err(format!("equal to the tree differing at region {}", x)); }
                }
            }
        }
        "C10" => for (lo, hi) in [(0, r - 1), (1, r - 1), (0, r - 2), (2, r - 4), (r / 2, r / 2 + 3)] {
            let b = zip(b, &within(r, lo, hi), |x, y| x & y);
            let t = tree(line, &b, 0);
            rec.ops(8);
            tree_is(line, &t, &b, true)?;
            let h = bhull(&b);
            if t.is_empty() != h.is_none() { return Err(format!("is_empty() is {}", t.is_empty())); }
            if t.is_full() != b.iter().all(|&x| x) { return Err(format!("is_full() is {}", t.is_full())); }
            let want = h.map_or(RawInterval::Empty, |(a, e)| line.raw(a, e));
            if t.lower_bound() != want.lower_bound() || t.upper_bound() != want.upper_bound() || t.enclose() != want { return Err(format!("bounds {:?}, {:?}, enclosure {:?}; expected {:?}", t.lower_bound(), t.upper_bound(), t.enclose(), want)); }
            let c = h.map_or(RawInterval::Empty, |(a, e)| line.raw(if a > 0 && a % 2 == 0 { a - 1 } else { a }, if e < r - 1 && e % 2 == 0 { e + 1 } else { e }));
            if t.closure() != c { return Err(format!("closure is {:?}, expected {:?}", t.closure(), c)); }
        },
        "C11" => {
            let t = tree(line, b, 0);
            let want = parts(line, b);
            let n = want.len();
            for s in [Sched::FrontThenBack(n), Sched::BackThenFront(n), Sched::FrontThenBack(n / 2), Sched::BackThenFront(n / 2), Sched::FrontThenBack(1), Sched::BackThenFront(1), Sched::Mix(1, 1), Sched::Mix(1, 3), Sched::Mix(300, 7)] {
                rec.ops(2 * n as u64 + 6);
                drive_big(t.interval_iter(), &want, s).map_err(|e| format!("interval_iter: {}", e))?;
                drive_big(t.clone().into_iter(), &want, s).map_err(|e| format!("into_iter: {}", e))?;
            }
            adaptors_big(&|| t.interval_iter(), &want).map_err(|e| format!("interval_iter: {}", e))?;
            adaptors_big(&|| t.clone().into_iter(), &want).map_err(|e| format!("into_iter: {}", e))?;
        }
        _ => {
            let v = parts(line, b);
            for o in 0..if n > 5000 { 1 } else { ORDERS } {
                let o = order(o, v.len());
                let t: Tree = o.iter().map(|&i| { alive(); v[i].clone() }).collect();
                rec.op();
                tree_is(line, &t, b, false)?;
            }
        }
    }
    Ok(())
}

pub fn selections(cx: &mut Ctx) {
    let cs = cases(&dims(cx));
    let prop = cx.prop.clone();
    let p = prop.as_str();
    let k = cs.len();
    let at = |i: u64| cs[k - 1 - i as usize];
    cx.enumerate("thousands of intervals of integers", k as u64, k as u64, |i| format!("shape {} of {} values", at(i).1, at(i).0), |i, rec| {
        let (n, s) = at(i);
        rec.out(i as u128);
        cut(match i % 3 {
            0 => { let w = Win::<i32>::new("i32", -(n as i32 / 2), n); sel_case(p, &w, &pattern(s, w.n(), 0), n, rec) }
            1 => { let w = Win::<u64>::new("u64", 0, n); sel_case(p, &w, &pattern(s, w.n(), 0), n, rec) }
            _ => { let w = Win::<i16>::new("i16", i16::MAX - (n as i16 - 1), n); sel_case(p, &w, &pattern(s, w.n(), 0), n, rec) }
        })
    });
}
fn sel_case<T: V>(p: &str, w: &Win<T>, b: &Bits, n: usize, rec: &mut Rec) -> R {
    let r = w.n();
    let ways = if n > 5000 { 1 } else { 4 };
    match p {
        "C16" => for how in 0..ways {
            let base = w.sel(b, how);
            w.is(&base, b, true).map_err(|m| format!("built in way {}: {}", how, m))?;
            if how > 0 { continue; }
            let few = n > 5000;
            for (k, (a, e)) in operands(r).into_iter().enumerate() {
                if few && k % 4 != 0 { continue; }
                let (iv, x) = (w.iv(a, e), within(r, a, e));
                for op in 0..4 {
                    rec.op();
                    let mut s = base.clone();
                    let want = match op {
                        0 => { s.union_in_place(iv.clone()); zip(b, &x, |p, q| p | q) }
                        1 => { s.minus_in_place(iv.clone()); zip(b, &x, |p, q| p & !q) }
                        2 => { s.intersect_in_place(iv.clone()); zip(b, &x, |p, q| p & q) }
                        _ => { s.extend([iv.clone()]); zip(b, &x, |p, q| p | q) }
                    };
                    w.is(&s, &want, false).map_err(|m| format!("{} {:?}: {}", ["union", "minus", "intersect", "extend"][op], iv, m))?;
                    if few && op == 0 { break; }
                }
            }
        },
        "C17" | "C18" => {
            let s = w.sel(b, 0);
            let is = |t: &Selection<T>, want: &Bits| if p == "C17" { w.is(t, want, false) } else {
                let got = w.list(t)?;
                if got == w.ivs(want) { Ok(()) } else { Err(format!("lists {:?}, expected {:?}", got, w.ivs(want))) }
            };
            is(&s.complement(), &not(b)).map_err(|m| format!("complement: {}", m))?;
            rec.op();
            for (k, y) in seconds(r).iter().enumerate() {
                alive();
                if n > 5000 && k % 4 != 1 { continue; }
                let u = w.sel(y, k);
                rec.ops(6);
                let err = |what: &'static str| move |m: String| format!("{} second operand {}: {}", what, k, m);
                is(&s.union(&u), &zip(b, y, |p, q| p | q)).map_err(err("union with"))?;
                is(&u.union(&s), &zip(b, y, |p, q| p | q)).map_err(err("union in front of"))?;
                is(&s.minus(&u), &zip(b, y, |p, q| p & !q)).map_err(err("minus"))?;
                is(&u.minus(&s), &zip(b, y, |p, q| q & !p)).map_err(err("taken from"))?;
                if bruns(y).len() < 60 {
                    is(&s.intersect(&u), &zip(b, y, |p, q| p & q)).map_err(err("intersect with"))?;
                    is(&u.intersect(&s), &zip(b, y, |p, q| p & q)).map_err(err("intersect from"))?;
                }
                if p == "C17" {
                    let meet = find_meet(b, y);
                    if s.intersects(&u) != meet || u.intersects(&s) != meet { return Err(format!("overlap test with second operand {} is {} / {}, expected {}", k, s.intersects(&u), u.intersects(&s), meet)); }
                }
            }
            if p == "C18" {
                for how in 1..ways {
                    let u = w.sel(b, how);
                    rec.op();
                    if s != u || std_hash(&s) != std_hash(&u) { return Err(format!("built in way {} is not equal", how)); }
                }
                for x in [0, 1, r / 3, r / 2, r - 2, r - 1] {
                    let mut u = s.clone();
                    if b[x] { u.minus_in_place(w.iv(x, x)); } else { u.union_in_place(w.iv(x, x)); }
                    if u == s { return Err(format!("equal to the selection differing at cell {}", x)); }
                }
            } else {
                // One value shared with the complement.
                let c = s.complement();
                if s.intersects(&c) { return Err("said to overlap its complement".into()); }
                for x in [0, 1, r / 3, r / 2, r - 2, r - 1] {
                    if !b[x] { continue; }
                    let mut d = c.clone();
                    d.union_in_place(w.iv(x, x));
                    rec.ops(2);
                    if !s.intersects(&d) || !d.intersects(&s) { return Err(format!("overlap test with its complement and cell {} is false", x)); }
                }
            }
        }
        "C19" => for (lo, hi) in [(0, r - 1), (1, r - 1), (0, r - 2), (2, r - 4), (r / 2, r / 2 + 3)] {
            let b = zip(b, &within(r, lo, hi), |x, y| x & y);
            let s = w.sel(&b, 0);
            rec.ops(10);
            w.is(&s, &b, true)?;
            let h = bhull(&b).map(|(i, j)| (w.cells[i].0.clone(), w.cells[j].1.clone()));
            if s.is_empty() != h.is_none() || s.is_full() != b.iter().all(|&x| x) { return Err(format!("is_empty(), is_full() are {}, {}", s.is_empty(), s.is_full())); }
            let e = h.clone().map_or(Interval::empty(), |(l, u)| Interval::closed(l, u));
            if s.enclose() != e || s.closure() != e { return Err(format!("enclose(), closure() are {:?}, {:?}; expected {:?}", s.enclose(), s.closure(), e)); }
            if s.lower_bound() != h.clone().map(|x| Bound::Include(x.0)) || s.upper_bound() != h.map(|x| Bound::Include(x.1)) { return Err(format!("bounds are {:?}, {:?}", s.lower_bound(), s.upper_bound())); }
        },
        "C20" => {
            let (b, v) = values(w, b);
            let s = w.sel(&b, 0);
            let l = w.ivs(&b);
            for n in [v.len(), l.len()] {
                for c in [Sched::FrontThenBack(n), Sched::BackThenFront(n), Sched::FrontThenBack(n / 2), Sched::BackThenFront(n / 2), Sched::Mix(1, 1), Sched::Mix(3, 1), Sched::Mix(300, 7)] {
                    rec.ops(4 * n as u64);
                    drive_big(s.iter(), &v, c).map_err(|e| format!("iter: {}", e))?;
                    drive_big(s.clone().into_iter(), &v, c).map_err(|e| format!("into_iter: {}", e))?;
                    drive_big(s.interval_iter(), &l, c).map_err(|e| format!("interval_iter: {}", e))?;
                    drive_big(s.clone().into_interval_iter(), &l, c).map_err(|e| format!("into_interval_iter: {}", e))?;
                }
            }
            ordered_big(&|| s.iter(), &v).map_err(|e| format!("iter: {}", e))?;
            ordered_big(&|| s.clone().into_iter(), &v).map_err(|e| format!("into_iter: {}", e))?;
            adaptors_big(&|| s.interval_iter(), &l).map_err(|e| format!("interval_iter: {}", e))?;
            adaptors_big(&|| s.clone().into_interval_iter(), &l).map_err(|e| format!("into_interval_iter: {}", e))?;
        }
        "C21" => {
            let (bv, v) = values(w, b);
            let (all, every) = (w.sel(b, 1), w.sel(&bv, 1));
            let ivs = w.ivs(b);
            for k in 0..if n > 5000 { 1 } else { ORDERS } {
                rec.ops(3);
                let s: Selection<T> = order(k, v.len()).into_iter().map(|i| { alive(); v[i].clone() }).collect();
                if s != every { return Err(format!("collecting {} values in order {} gives {:?}", v.len(), k, s)); }
                let o = order(k, ivs.len());
                let mut s: Selection<T> = o.iter().map(|&i| { alive(); ivs[i].clone() }).collect();
                w.is(&s, b, false)?;
                if s != all { return Err(format!("collecting {} intervals in order {} gives {:?}", ivs.len(), k, s)); }
                s.extend(o.iter().map(|&i| { alive(); ivs[i].clone() }));
                if s != all { return Err(format!("extending by the same intervals in order {} gives {:?}", k, s)); }
                let mut s: Selection<T> = o[..o.len() / 2].iter().map(|&i| { alive(); ivs[i].clone() }).collect();
                s.extend(o[o.len() / 2..].iter().map(|&i| { alive(); ivs[i].clone() }));
                if s != all { return Err(format!("extending half of {} intervals in order {} gives {:?}", ivs.len(), k, s)); }
            }
        }
        _ => {
            let a = w.sel(b, 0);
            let na = a.complement();
            if na.complement() != a { return Err("double complement fails".into()); }
            if a.intersects(&na) || !a.union(&na).is_full() { return Err("not a partition with the complement".into()); }
            for (k, y) in seconds(r).iter().enumerate() {
                if bruns(y).len() > 60 || (n > 5000 && k % 4 != 1) { continue; }
                let c = w.sel(y, k);
                let step = |s: Selection<T>| { alive(); s };
                let (u, it, mi) = (step(a.union(&c)), step(a.intersect(&c)), step(a.minus(&c)));
                rec.ops(12);
                let laws: [(&str, &dyn Fn() -> bool); 8] = [("De Morgan (union)", &|| u.complement() == step(na.minus(&c))), ("De Morgan (intersection)", &|| it.complement() == na.union(&step(c.complement()))),
                    ("union commutes", &|| u == c.union(&a)), ("intersection commutes", &|| it == c.intersect(&a)), ("absorption (dual)", &|| u.minus(&step(na.minus(&c))) == u),
                    ("difference and intersection partition", &|| mi.union(&it) == a), ("overlap", &|| a.intersects(&c) != it.is_empty()), ("difference apart", &|| !mi.intersects(&c))];
                for (nm, ok) in laws { alive(); if !ok() { return Err(format!("{} fails with second operand {}", nm, k)); } }
            }
        }
    }
    Ok(())
}
