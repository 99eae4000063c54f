//! Families of large objects (hundreds of intervals), for the trees and the
//! selections: every size up to a bound, several periodic shapes, every
//! position of an operand. Models are plain vectors of booleans.
use crate::engine::*;
use crate::model::*;
use crate::tree::Tree;
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval, Selection};
use std::fmt::Debug;

pub type Bits = Vec<bool>;
pub fn bruns(b: &[bool]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if !b[i] { i += 1; continue; }
        let a = i;
        while i + 1 < b.len() && b[i + 1] { i += 1; }
        v.push((a, i));
        i += 1;
    }
    v
}
pub fn zip(a: &[bool], b: &[bool], f: impl Fn(bool, bool) -> bool) -> Bits { a.iter().zip(b).map(|(&x, &y)| f(x, y)).collect() }
pub fn not(a: &[bool]) -> Bits { a.iter().map(|x| !x).collect() }
pub fn within(n: usize, a: usize, b: usize) -> Bits { (0..n).map(|i| a <= i && i <= b).collect() }
pub fn bhull(b: &[bool]) -> Option<(usize, usize)> { Some((b.iter().position(|&x| x)?, b.iter().rposition(|&x| x)?)) }

/// Periodic shapes of a large object.
pub const PATS: [&[u8]; 10] = [&[0, 1], &[1, 0], &[0, 1, 1, 1], &[1, 1, 0, 1], &[0, 0, 1, 1], &[0, 1, 1, 0], &[0, 1, 0, 0, 1, 1, 1, 0], &[1, 1, 1, 0, 1, 0], &[0, 0, 0, 1, 0, 1, 1, 1, 0, 1], &[1]];
pub fn pattern(p: usize, n: usize, shift: usize) -> Bits { (0..n).map(|i| PATS[p][(i + shift) % PATS[p].len()] == 1).collect() }
/// The sizes explored: all up to `dense`, then around powers of two.
pub fn sizes(dense: usize, thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=dense).collect();
    v.extend([127, 128, 129, 130, 255, 256, 257, 258, 300]);
    if thorough { v.extend([511, 512, 513, 514, 600, 1023, 1024, 1025, 1026, 2050]); }
    v.sort();
    v.dedup();
    v
}
/// Starting points of an operand: all of a small line, all ends and a
/// spread of a large one.
pub fn starts(r: usize, cap: usize) -> Vec<usize> {
    let step = (r / cap).max(1);
    let mut v: Vec<usize> = (0..r).filter(|a| a % step == 0 || *a < 12 || a + 12 >= r).collect();
    // Every parity next to each chosen position.
    if step > 1 { for a in (0..r).step_by(step * 2) { for d in 1..4 { if a + d < r { v.push(a + d); } } } }
    v.sort();
    v.dedup();
    v
}
pub fn ends_from(a: usize, r: usize) -> Vec<usize> {
    let mut v = vec![a, a + 1, a + 2, a + 3, a + 6, a + 17, (a + r) / 2, r - 1];
    v.retain(|b| *b < r);
    v.sort();
    v.dedup();
    v
}
/// Orders in which to hand over `n` items.
pub const ORDERS: usize = 7;
pub fn order(k: usize, n: usize) -> Vec<usize> {
    match k {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        3 => (0..n).map(|i| if i % 2 == 0 { n - 1 - i / 2 } else { i / 2 }).collect(),
        4 => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
        5 => { let mut s = (n * 5 / 8).max(1); while gcd(s, n.max(1)) != 1 { s += 1; } (0..n).map(|i| i * s % n).collect() }
        _ => (n / 2..n).chain(0..n / 2).collect(),
    }
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }

// ------------------------------------------------------------ schedules
/// A front/back schedule over any number of items.
#[derive(Clone, Copy, Debug)]
pub enum Sched { FrontThenBack(usize), BackThenFront(usize), FrontBackFront(usize, usize), Mix(usize, usize) }
impl Sched {
    pub fn back(&self, i: usize) -> bool {
        match *self {
            Sched::FrontThenBack(k) => i >= k,
            Sched::BackThenFront(k) => i < k,
            Sched::FrontBackFront(a, b) => i >= a && i < a + b,
            Sched::Mix(f, b) => i % (f + b) >= f,
        }
    }
}
pub fn scheds(n: usize, cap: usize) -> Vec<Sched> {
    let step = (n / cap).max(1);
    let mut v = vec![];
    for k in (0..=n + 1).filter(|k| k % step == 0 || *k < 4 || k + 4 > n) { v.extend([Sched::FrontThenBack(k), Sched::BackThenFront(k), Sched::FrontBackFront(k / 2, n - k.min(n))]); }
    for (a, b) in [(1, 1), (1, 2), (2, 1), (3, 1), (1, 3), (7, 5), (64, 1), (1, 64)] { v.push(Sched::Mix(a, b)); }
    v
}
pub fn drive_big<I, X>(mut it: I, want: &[X], s: Sched) -> R
where I: DoubleEndedIterator<Item = X>, X: PartialEq + Debug {
    let (mut f, mut b) = (0, want.len());
    for i in 0..want.len() + 3 {
        let (got, exp) = if s.back(i) { (it.next_back(), if f < b { b -= 1; Some(&want[b]) } else { None }) }
            else { (it.next(), if f < b { f += 1; Some(&want[f - 1]) } else { None }) };
        if got.as_ref() != exp { return Err(format!("call {} of schedule {:?} returned {:?}, expected {:?}", i + 1, s, got, exp)); }
    }
    Ok(())
}
/// The same, and the methods that compare items, for items in ascending order.
pub fn ordered_big<I, X>(mk: &dyn Fn() -> I, want: &[X]) -> R
where I: DoubleEndedIterator<Item = X>, X: Ord + Debug + Clone {
    adaptors_big(mk, want)?;
    for (f, b) in [(0, 0), (3, 2), (want.len() / 2, 1), (1, want.len() / 2)] {
        if f + b > want.len() { continue; }
        crate::tree::comparing(&|| { let mut it = mk(); for _ in 0..f { it.next(); } for _ in 0..b { it.next_back(); } it }, &want[f..want.len() - b])
            .map_err(|e| format!("after {} front and {} back calls, {}", f, b, e))?;
    }
    Ok(())
}
/// The consuming adaptors, from a fresh iterator and after a few calls.
pub fn adaptors_big<I, X>(mk: &dyn Fn() -> I, want: &[X]) -> R
where I: DoubleEndedIterator<Item = X>, X: PartialEq + Debug + Clone {
    for (f, b) in [(0, 0), (1, 0), (0, 1), (3, 2), (want.len() / 2, 1), (1, want.len() / 2), (want.len(), 0), (0, want.len())] {
        if f + b > want.len() { continue; }
        let rest = &want[f..want.len() - b];
        let pre = || { let mut it = mk(); for _ in 0..f { it.next(); } for _ in 0..b { it.next_back(); } it };
        let bound = want.len() + 2;
        let err = |what: &str, got: String| Err(format!("after {} front and {} back calls, {} gives {}", f, b, what, got));
        let v: Vec<X> = pre().take(bound).collect();
        if v != rest { return err("collect()", format!("{:?}", v)); }
        let mut v: Vec<X> = pre().rev().take(bound).collect();
        v.reverse();
        if v != rest { return err("rev()", format!("{:?}", v)); }
        let c = pre().count();
        if c != rest.len() { return err("count()", c.to_string()); }
        let l = pre().last();
        if l.as_ref() != rest.last() { return err("last()", format!("{:?}", l)); }
        let h = pre().size_hint();
        if h.0 > rest.len() || h.1.is_some_and(|u| u < rest.len()) { return err("size_hint()", format!("{:?}", h)); }
        if want.len() <= 64 { crate::tree::consuming(&pre, rest).or_else(|e: String| err("a provided method", e))?; }
        for k in [0, 1, 2, rest.len() / 2, rest.len().saturating_sub(1), rest.len()] {
            let mut it = pre();
            let g = it.nth(k);
            if g.as_ref() != rest.get(k) { return err(&format!("nth({})", k), format!("{:?}", g)); }
            let g = it.next();
            if g.as_ref() != rest.get(k + 1) { return err(&format!("nth({}), next()", k), format!("{:?}", g)); }
            let mut it = pre();
            let g = it.nth_back(k);
            if g.as_ref() != if k < rest.len() { rest.get(rest.len() - 1 - k) } else { None } { return err(&format!("nth_back({})", k), format!("{:?}", g)); }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ trees
pub fn parts(line: &Line, b: &[bool]) -> Vec<Raw> { bruns(b).into_iter().map(|(i, j)| line.raw(i, j)).collect() }
pub fn tree(line: &Line, b: &[bool], how: usize) -> Tree {
    let v = parts(line, b);
    match how % 4 {
        0 => { let mut t = Tree::new(); for r in &v { alive(); t.union_in_place(r); } t }
        1 => v.into_iter().rev().inspect(|_| alive()).collect(),
        2 => { let mut t = Tree::from_raw_interval(RawInterval::Full); for r in parts(line, &not(b)) { alive(); t.minus_in_place(&r); } t }
        _ => { let mut t = Tree::new(); for i in order(2, v.len()) { alive(); t.union_in_place(&v[i]); } t }
    }
}
pub fn list(t: &Tree, cap: usize) -> Result<Vec<Raw>, String> {
    let v: Vec<Raw> = t.interval_iter().take(cap + 2).inspect(|_| alive()).collect();
    if v.len() > cap + 1 { return Err("interval_iter() does not end".into()); }
    Ok(v)
}
/// Exactly these points, by the listing; by membership too when `probe`.
pub fn tree_is(line: &Line, t: &Tree, want: &[bool], probe_all: bool) -> R {
    alive();
    let got = list(t, line.regions())?;
    let ps = parts(line, want);
    if got != ps {
        for r in 0..line.regions() {
            if got.iter().any(|g| g.contains(&probe(r))) != want[r] { return Err(format!("lists {:?}, expected {:?}", got, ps)); }
        }
    }
    if probe_all { for r in 0..line.regions() { alive(); if t.contains(&probe(r)) != want[r] { return Err(format!("contains({:?}) is {}, expected {:?}", probe(r), !want[r], ps)); } } }
    Ok(())
}
pub fn tree_canon(line: &Line, t: &Tree, want: &[bool]) -> R {
    let got = list(t, line.regions())?;
    let ps = parts(line, want);
    if got != ps { return Err(format!("lists {:?}, expected {:?}", got, ps)); }
    for how in 0..3 {
        let o = tree(line, want, how);
        if *t != o { return Err(format!("is not equal to the same points built in way {}: {:?} / {:?}", how, t, o)); }
        if std_hash(t) != std_hash(&o) { return Err(format!("hashes unlike the same points built in way {}", how)); }
    }
    Ok(())
}
fn pick_sizes(cx: &Ctx, quick: usize, thorough: usize) -> Vec<usize> { sizes(cx.pick(quick, thorough), !cx.quick()) }

pub fn c07(cx: &mut Ctx) {
    let ns = pick_sizes(cx, 60, 160);
    let np = PATS.len() as u64;
    let cap = cx.pick(100, 400);
    cx.enumerate("one operation on hundreds of intervals", ns.len() as u64 * np, ns.len() as u64 * np, |i| format!("shape {} of {} end points", i % np, ns[(i / np) as usize]), |i, rec| {
        let line = Line { n: ns[(i / np) as usize] };
        let r = line.regions();
        let b = pattern((i % np) as usize, r, 0);
        let base = tree(&line, &b, i as usize);
        tree_is(&line, &base, &b, true)?;
        for a in starts(r, cap) { for e in ends_from(a, r) {
            let (iv, x) = (line.raw(a, e), within(r, a, e));
            rec.ops(3);
            let mut t = base.clone();
            t.union_in_place(&iv);
            tree_is(&line, &t, &zip(&b, &x, |p, q| p | q), false).map_err(|m| format!("union with {:?}: {}", iv, m))?;
            let mut t = base.clone();
            t.minus_in_place(&iv);
            tree_is(&line, &t, &zip(&b, &x, |p, q| p & !q), false).map_err(|m| format!("minus {:?}: {}", iv, m))?;
            let mut t = base.clone();
            t.intersect_in_place(&iv);
            tree_is(&line, &t, &zip(&b, &x, |p, q| p & q), false).map_err(|m| format!("intersect {:?}: {}", iv, m))?;
        } }
        for how in 0..4 { tree_is(&line, &tree(&line, &b, how), &b, true).map_err(|m| format!("built in way {}: {}", how, m))?; }
        rec.out(i as u128);
        Ok(())
    });
    // Long histories on one live tree: remove and restore every stretch.
    let ns: Vec<usize> = cx.pick(vec![3, 7, 20, 64, 130], vec![3, 7, 20, 40, 64, 100, 130, 200, 300]);
    let strides = [1usize, 2, 3, 5, 7, 11];
    let k = (ns.len() * PATS.len() * strides.len()) as u64;
    cx.enumerate("long histories on one tree", k, k, |i| { let i = i as usize; format!("shape {} of {} end points, stride {}", i % PATS.len(), ns[i / PATS.len() % ns.len()], strides[i / PATS.len() / ns.len()]) }, |i, rec| {
        let i = i as usize;
        let line = Line { n: ns[i / PATS.len() % ns.len()] };
        let s = strides[i / PATS.len() / ns.len()];
        let r = line.regions();
        let mut b = pattern(i % PATS.len(), r, 0);
        let mut t = tree(&line, &b, i);
        for step in 0..6 * r {
            let a = step * s % r;
            let e = (a + step % 5).min(r - 1);
            let (iv, x) = (line.raw(a, e), within(r, a, e));
            rec.op();
            let op = if step % (2 * r) == 2 * r - 1 { "intersect" } else if step / r % 2 == 0 { "minus" } else { "union" };
            match op {
                "minus" => { t.minus_in_place(&iv); b = zip(&b, &x, |p, q| p & !q); }
                "union" => { t.union_in_place(&iv); b = zip(&b, &x, |p, q| p | q); }
                _ => { let wide = line.raw(1, r - 1); t.intersect_in_place(&wide); b[0] = false; }
            }
            tree_is(&line, &t, &b, step % 97 == 0).map_err(|m| format!("step {} ({} {:?}): {}", step, op, iv, m))?;
        }
        Ok(())
    });
}
/// Pairs of large operands: `(size, left shape, right shape)`; each with
/// several windows on both sides.
fn big_pairs(cx: &mut Ctx, name: &str, quick: usize, thorough: usize, f: &(dyn Fn(&Line, &[bool], &[bool], usize, &mut Rec) -> R + Sync)) {
    let ns = pick_sizes(cx, quick, thorough);
    let np = PATS.len() as u64;
    let n = ns.len() as u64 * np * np;
    cx.enumerate(name, n, ns.len() as u64 * np, |i| format!("shapes {} and {} of {} end points", i / np % np, i % np, ns[(i / np / np) as usize]), |i, rec| {
        let line = Line { n: ns[(i / np / np) as usize] };
        let r = line.regions();
        for shift in 0..2 {
            let (p, q) = (pattern((i / np % np) as usize, r, 0), pattern((i % np) as usize, r, shift));
            for (lo, hi) in [(0, r - 1), (0, r / 2), (r / 2, r - 1), (r / 3, 2 * r / 3)] {
                let w = within(r, lo, hi);
                let left = zip(&p, &w, |x, y| x & y);
                f(&line, &left, &q, i as usize, rec).map_err(|m| format!("left operand cut to regions {}..={}, right shifted by {}: {}", lo, hi, shift, m))?;
                f(&line, &q, &left, i as usize + 1, rec).map_err(|m| format!("right operand cut to regions {}..={}, left shifted by {}: {}", lo, hi, shift, m))?;
            }
        }
        rec.out(i as u128);
        Ok(())
    });
}
pub fn c08(cx: &mut Ctx) {
    big_pairs(cx, "pairs with hundreds of intervals", 70, 150, &|line, a, b, how, rec| {
        let (ta, tb) = (tree(line, a, how), tree(line, b, how / 3));
        rec.ops(4);
        for (op, t, want) in [("union", ta.union(&tb), zip(a, b, |x, y| x | y)), ("intersect", ta.intersect(&tb), zip(a, b, |x, y| x & y)), ("minus", ta.minus(&tb), zip(a, b, |x, y| x & !y)), ("complement", ta.complement(), not(a))] {
            tree_is(line, &t, &want, false).map_err(|m| format!("{}: {}", op, m))?;
        }
        Ok(())
    });
}
pub fn c09(cx: &mut Ctx) {
    big_pairs(cx, "results with hundreds of intervals", 40, 140, &|line, a, b, how, rec| {
        let (ta, tb) = (tree(line, a, how), tree(line, b, how / 3));
        rec.ops(4);
        for (op, t, want) in [("union", ta.union(&tb), zip(a, b, |x, y| x | y)), ("intersect", ta.intersect(&tb), zip(a, b, |x, y| x & y)), ("minus", ta.minus(&tb), zip(a, b, |x, y| x & !y)), ("complement", ta.complement(), not(a))] {
            let got = list(&t, line.regions())?;
            let ps = parts(line, &want);
            if got != ps { return Err(format!("{} lists {:?}, expected {:?}", op, got, ps)); }
            let o = tree(line, &want, how + 1);
            if t != o || std_hash(&t) != std_hash(&o) { return Err(format!("{} gives {:?}, not equal to {:?}", op, t, o)); }
        }
        Ok(())
    });
    let ns = pick_sizes(cx, 140, 400);
    let np = PATS.len() as u64;
    cx.enumerate("ways of building hundreds of intervals", ns.len() as u64 * np, ns.len() as u64 * np, |i| format!("shape {} of {} end points", i % np, ns[(i / np) as usize]), |i, rec| {
        let line = Line { n: ns[(i / np) as usize] };
        let b = pattern((i % np) as usize, line.regions(), 0);
        let v = parts(&line, &b);
        for k in 0..ORDERS {
            rec.ops(3);
            let o = order(k, v.len());
            let t: Tree = o.iter().map(|&i| v[i].clone()).collect();
            tree_canon(&line, &t, &b).map_err(|m| format!("collected in order {}: {}", k, m))?;
            let mut t = Tree::new();
            for &i in &o { t.union_in_place(&v[i]); }
            tree_canon(&line, &t, &b).map_err(|m| format!("united in order {}: {}", k, m))?;
            let t = t.complement();
            tree_canon(&line, &t, &not(&b)).map_err(|m| format!("complement: {}", m))?;
        }
        // One end moved, one point added or removed: equality notices.
        let t = tree(&line, &b, 0);
        for r in starts(line.regions(), 40) {
            let mut c = b.clone();
            c[r] = !c[r];
            let u = tree(&line, &c, 1);
            if t == u { return Err(format!("equal to the tree differing at region {}", r)); }
            let mut w = t.clone();
            if c[r] { w.union_in_place(&line.raw(r, r)); } else { w.minus_in_place(&line.raw(r, r)); }
            rec.ops(2);
            if w != u || std_hash(&w) != std_hash(&u) { return Err(format!("region {} switched in place: {:?}, rebuilt {:?}", r, w, u)); }
        }
        Ok(())
    });
}
pub fn c10(cx: &mut Ctx) {
    let ns = pick_sizes(cx, 140, 400);
    let np = PATS.len() as u64;
    cx.enumerate("queries on hundreds of intervals", ns.len() as u64 * np, ns.len() as u64 * np, |i| format!("shape {} of {} end points", i % np, ns[(i / np) as usize]), |i, rec| {
        let line = Line { n: ns[(i / np) as usize] };
        let r = line.regions();
        for (shift, lo, hi) in [(0, 0, r - 1), (1, 0, r - 1), (0, r / 2, r - 1), (0, 1, r / 2)] {
            if lo > hi || hi >= r { continue; }
            let b = zip(&pattern((i % np) as usize, r, shift), &within(r, lo, hi), |x, y| x & y);
            for how in 0..3 {
                let t = tree(&line, &b, how);
                rec.ops(8);
                tree_is(&line, &t, &b, true)?;
                let h = bhull(&b);
                if t.is_empty() != h.is_none() { return Err(format!("is_empty() is {}", t.is_empty())); }
                if t.is_full() != b.iter().all(|&x| x) { return Err(format!("is_full() is {}", t.is_full())); }
                let want = h.map_or(RawInterval::Empty, |(a, e)| line.raw(a, e));
                if t.lower_bound() != want.lower_bound() || t.upper_bound() != want.upper_bound() || t.enclose() != want { return Err(format!("bounds {:?}, {:?}, enclosure {:?}; expected {:?}", t.lower_bound(), t.upper_bound(), t.enclose(), want)); }
                let c = h.map_or(RawInterval::Empty, |(a, e)| line.raw(if a > 0 && a % 2 == 0 { a - 1 } else { a }, if e < r - 1 && e % 2 == 0 { e + 1 } else { e }));
                if t.closure() != c { return Err(format!("closure is {:?}, expected {:?}", t.closure(), c)); }
            }
        }
        Ok(())
    });
}
pub fn c11(cx: &mut Ctx) {
    let ns = pick_sizes(cx, 80, 200);
    let np = PATS.len() as u64;
    let cap = cx.pick(60, 400);
    cx.enumerate("schedules over hundreds of intervals", ns.len() as u64 * np, ns.len() as u64 * np, |i| format!("shape {} of {} end points", i % np, ns[(i / np) as usize]), |i, rec| {
        let line = Line { n: ns[(i / np) as usize] };
        let b = pattern((i % np) as usize, line.regions(), 0);
        let t = tree(&line, &b, i as usize);
        let want = parts(&line, &b);
        for s in scheds(want.len(), cap) {
            rec.ops(2 * want.len() as u64 + 6);
            drive_big(t.interval_iter(), &want, s).map_err(|e| format!("interval_iter: {}", e))?;
            drive_big(t.clone().into_iter(), &want, s).map_err(|e| format!("into_iter: {}", e))?;
        }
        adaptors_big(&|| t.interval_iter(), &want).map_err(|e| format!("interval_iter: {}", e))?;
        adaptors_big(&|| t.clone().into_iter(), &want).map_err(|e| format!("into_iter: {}", e))
    });
}

// ------------------------------------------------------------ selections
/// A window of consecutive values of a finite type, with what lies below and
/// above it (if anything) as one cell each.
#[derive(Clone)]
pub struct Win<T> { pub name: String, pub cells: Vec<(T, T)> }
impl<T: V> Win<T> {
    pub fn new(name: &str, base: T, n: usize) -> Self {
        let mut cells = vec![];
        if let Some(p) = base.pred() { cells.push((T::MINIMUM, p)); }
        let mut x = Some(base);
        for _ in 0..n { if let Some(v) = x { cells.push((v.clone(), v.clone())); x = v.succ(); } }
        if let Some(v) = x { cells.push((v, T::MAXIMUM)); }
        Win { name: format!("{} values of {}", n, name), cells }
    }
    pub fn n(&self) -> usize { self.cells.len() }
    pub fn iv(&self, i: usize, j: usize) -> Interval<T> {
        let (l, u) = (self.cells[i].0.clone(), self.cells[j].1.clone());
        if l == u { Interval::point(l) } else { Interval::closed(l, u) }
    }
    pub fn ivs(&self, b: &[bool]) -> Vec<Interval<T>> { bruns(b).into_iter().map(|(i, j)| self.iv(i, j)).collect() }
    pub fn list(&self, s: &Selection<T>) -> Result<Vec<Interval<T>>, String> {
        let v: Vec<Interval<T>> = s.interval_iter().take(2 * self.n() + 2).inspect(|_| alive()).collect();
        if v.len() > 2 * self.n() + 1 { return Err("interval_iter() does not end".into()); }
        Ok(v)
    }
    pub fn member(&self, b: &[bool], f: impl Fn(&T) -> bool) -> R {
        for (k, (x, y)) in self.cells.iter().enumerate() { for p in [x, y] { alive(); if f(p) != b[k] { return Err(format!("contains({:?}) is {}, expected the values {:?}", p, !b[k], self.ivs(b))); } } }
        Ok(())
    }
    pub fn is(&self, s: &Selection<T>, b: &[bool], probe_all: bool) -> R {
        alive();
        let got = self.list(s)?;
        if got != self.ivs(b) { self.member(b, |p| got.iter().any(|g| g.contains(p))).map_err(|m| format!("lists {:?}: {}", got, m))?; }
        if probe_all { self.member(b, |p| s.contains(p))?; }
        Ok(())
    }
    pub fn sel(&self, b: &[bool], how: usize) -> Selection<T> {
        let v = self.ivs(b);
        match how % 4 {
            0 => v.into_iter().inspect(|_| alive()).collect(),
            1 => { let mut s = Selection::new(); for iv in v.into_iter().rev() { alive(); s.union_in_place(iv); } s }
            2 => { let mut s = Selection::full(); for iv in self.ivs(&not(b)) { alive(); s.minus_in_place(iv); } s }
            _ => { let mut s = Selection::new(); s.extend(order(2, v.len()).into_iter().map(|i| { alive(); v[i].clone() })); s }
        }
    }
    pub fn canon(&self, s: &Selection<T>, b: &[bool]) -> R {
        let got = self.list(s)?;
        if got != self.ivs(b) { return Err(format!("lists {:?}, expected {:?}", got, self.ivs(b))); }
        for how in 0..4 {
            let o = self.sel(b, how);
            if *s != o { return Err(format!("is not equal to the same values built in way {}: {:?} / {:?}", how, s, o)); }
            if std_hash(s) != std_hash(&o) { return Err(format!("hashes unlike the same values built in way {}", how)); }
        }
        Ok(())
    }
}
/// Window families over built-in types: at the minimum, across zero, at the
/// maximum.
fn wins(ns: &[usize]) -> (Vec<Win<i16>>, Vec<Win<u16>>) {
    let mut a = vec![];
    let mut b = vec![];
    for (k, &n) in ns.iter().enumerate() {
        match k % 3 {
            0 => { a.push(Win::new("i16 around 0", -(n as i16 / 2), n)); b.push(Win::new("u16 up to the maximum", u16::MAX - (n as u16 - 1), n)); }
            1 => { a.push(Win::new("i16 from the minimum", i16::MIN, n)); b.push(Win::new("u16 from the minimum", 0, n)); }
            _ => { a.push(Win::new("i16 up to the maximum", i16::MAX - (n as i16 - 1), n)); b.push(Win::new("u16 from 1000", 1000, n)); }
        }
    }
    (a, b)
}
fn per_win<T: V>(cx: &mut Ctx, name: &str, ws: Vec<Win<T>>, f: &(dyn Fn(&Win<T>, &[bool], usize, &mut Rec) -> R + Sync)) {
    let np = PATS.len() as u64;
    let n = ws.len() as u64 * np;
    cx.enumerate(&format!("{}[{}]", name, std::any::type_name::<T>()), n, n, |i| format!("shape {} of {}", i % np, ws[(i / np) as usize].name), |i, rec| {
        let w = &ws[(i / np) as usize];
        rec.out(i as u128);
        f(w, &pattern((i % np) as usize, w.n(), 0), i as usize, rec)
    });
}
fn per_win_pair<T: V>(cx: &mut Ctx, name: &str, ws: Vec<Win<T>>, f: &(dyn Fn(&Win<T>, &[bool], &[bool], usize, &mut Rec) -> R + Sync)) {
    let np = PATS.len() as u64;
    let n = ws.len() as u64 * np * np;
    cx.enumerate(&format!("{}[{}]", name, std::any::type_name::<T>()), n, ws.len() as u64 * np, |i| format!("shapes {} and {} of {}", i / np % np, i % np, ws[(i / np / np) as usize].name), |i, rec| {
        let w = &ws[(i / np / np) as usize];
        let r = w.n();
        rec.out(i as u128);
        for shift in 0..2 {
            let (p, q) = (pattern((i / np % np) as usize, r, 0), pattern((i % np) as usize, r, shift));
            for (lo, hi) in [(0, r - 1), (0, r / 2), (r / 2, r - 1)] {
                let left = zip(&p, &within(r, lo, hi), |x, y| x & y);
                f(w, &left, &q, i as usize, rec).map_err(|m| format!("left operand cut to cells {}..={}, right shifted by {}: {}", lo, hi, shift, m))?;
                f(w, &q, &left, i as usize + 1, rec).map_err(|m| format!("right operand cut to cells {}..={}, left shifted by {}: {}", lo, hi, shift, m))?;
            }
        }
        Ok(())
    });
}
macro_rules! both { ($cx:expr, $f:ident, $name:expr, $ns:expr, $body:expr) => { {
    let ns = $ns;
    let (a, b) = wins(&ns);
    $f($cx, $name, a, &$body);
    $f($cx, $name, b, &$body);
} } }
fn sel_ops<T: V>(w: &Win<T>, b: &[bool], how: usize, cap: usize, rec: &mut Rec) -> R {
    let base = w.sel(b, how);
    w.is(&base, b, true)?;
    let r = w.n();
    for a in starts(r, cap) { for e in ends_from(a, r) {
        let (iv, x) = (w.iv(a, e), within(r, a, e));
        rec.ops(4);
        let mut s = base.clone();
        s.union_in_place(iv.clone());
        w.is(&s, &zip(b, &x, |p, q| p | q), false).map_err(|m| format!("union with {:?}: {}", iv, m))?;
        let mut s = base.clone();
        s.minus_in_place(iv.clone());
        w.is(&s, &zip(b, &x, |p, q| p & !q), false).map_err(|m| format!("minus {:?}: {}", iv, m))?;
        let mut s = base.clone();
        s.intersect_in_place(iv.clone());
        w.is(&s, &zip(b, &x, |p, q| p & q), false).map_err(|m| format!("intersect {:?}: {}", iv, m))?;
        let mut s = base.clone();
        s.extend(std::iter::once(iv.clone()));
        w.is(&s, &zip(b, &x, |p, q| p | q), false).map_err(|m| format!("extend with {:?}: {}", iv, m))?;
    } }
    Ok(())
}
pub fn c16(cx: &mut Ctx) {
    let cap = cx.pick(70, 300);
    let ns = pick_sizes(cx, 40, 150);
    let (a, b) = wins(&ns);
    per_win(cx, "one operation on hundreds of intervals", a, &|w, b, how, rec| sel_ops(w, b, how, cap, rec));
    per_win(cx, "one operation on hundreds of intervals", b, &|w, b, how, rec| sel_ops(w, b, how, cap, rec));
    both!(cx, per_win, "long histories on one selection", cx.pick(vec![6, 30, 64, 130, 256], vec![6, 10, 30, 64, 100, 130, 200, 256, 400]), |w, start, how, rec| {
        for stride in [1usize, 2, 3, 5, 7] {
            let r = w.n();
            let mut b = start.to_vec();
            let mut s = w.sel(&b, how);
            for step in 0..5 * r {
                let a = step * stride % r;
                let e = (a + step % 4).min(r - 1);
                let (iv, x) = (w.iv(a, e), within(r, a, e));
                rec.op();
                match step / r % 3 {
                    0 => { s.minus_in_place(iv); b = zip(&b, &x, |p, q| p & !q); }
                    1 => { s.union_in_place(iv); b = zip(&b, &x, |p, q| p | q); }
                    _ => { s.extend([iv.clone(), Interval::empty(), iv]); b = zip(&b, &x, |p, q| p | q); if step % 2 == 0 { s.intersect_in_place(w.iv(0, r - 1 - step % 3)); for k in r - step % 3..r { b[k] = false; } } }
                }
                w.is(&s, &b, step % 101 == 0).map_err(|m| format!("stride {}, step {}: {}", stride, step, m))?;
            }
        }
        Ok(())
    });
}
pub fn c17(cx: &mut Ctx) {
    both!(cx, per_win_pair, "pairs with hundreds of intervals", pick_sizes(cx, 50, 150), |w, a, b, how, rec| {
        let (s, t) = (w.sel(a, how), w.sel(b, how / 3));
        rec.ops(5);
        for (op, t, want) in [("union", s.union(&t), zip(a, b, |x, y| x | y)), ("intersect", s.intersect(&t), zip(a, b, |x, y| x & y)), ("minus", s.minus(&t), zip(a, b, |x, y| x & !y)), ("complement", s.complement(), not(a))] {
            w.is(&t, &want, false).map_err(|m| format!("{}: {}", op, m))?;
        }
        let meet = a.iter().zip(b).any(|(&x, &y)| x && y);
        if s.intersects(&t) != meet || t.intersects(&s) != meet { return Err(format!("intersects is {} / {}, expected {}", s.intersects(&t), t.intersects(&s), meet)); }
        Ok(())
    });
    // The only common value in any place.
    both!(cx, per_win, "one shared value among hundreds of intervals", pick_sizes(cx, 20, 140), |w, a, how, rec| {
        let s = w.sel(a, how);
        let rest = not(a);
        for k in starts(w.n(), 60) {
            let mut b = rest.clone();
            b[k] = true;
            let t = w.sel(&b, how + 1);
            rec.ops(3);
            if s.intersects(&t) != a[k] || t.intersects(&s) != a[k] { return Err(format!("overlap test with its complement and cell {} is {}, expected {}", k, s.intersects(&t), a[k])); }
            w.is(&s.intersect(&t), &zip(a, &b, |x, y| x & y), false).map_err(|m| format!("intersection with its complement and cell {}: {}", k, m))?;
        }
        Ok(())
    });
}
pub fn c18(cx: &mut Ctx) {
    both!(cx, per_win_pair, "results with hundreds of intervals", pick_sizes(cx, 24, 140), |w, a, b, how, rec| {
        let (s, t) = (w.sel(a, how), w.sel(b, how / 3));
        rec.ops(4);
        for (op, t, want) in [("union", s.union(&t), zip(a, b, |x, y| x | y)), ("intersect", s.intersect(&t), zip(a, b, |x, y| x & y)), ("minus", s.minus(&t), zip(a, b, |x, y| x & !y)), ("complement", s.complement(), not(a))] {
            let got = w.list(&t)?;
            if got != w.ivs(&want) { return Err(format!("{} lists {:?}, expected {:?}", op, got, w.ivs(&want))); }
            let o = w.sel(&want, how + 1);
            if t != o || std_hash(&t) != std_hash(&o) { return Err(format!("{} gives {:?}, not equal to {:?}", op, t, o)); }
        }
        Ok(())
    });
    both!(cx, per_win, "ways of building hundreds of intervals", pick_sizes(cx, 60, 300), |w, b, _how, rec| {
        let v = w.ivs(b);
        for k in 0..ORDERS {
            rec.ops(3);
            let o = order(k, v.len());
            let s: Selection<_> = o.iter().map(|&i| v[i].clone()).collect();
            w.canon(&s, b).map_err(|m| format!("collected in order {}: {}", k, m))?;
            let mut s = Selection::new();
            for &i in &o { s.union_in_place(v[i].clone()); }
            w.canon(&s, b).map_err(|m| format!("united in order {}: {}", k, m))?;
            w.canon(&s.complement(), &not(b)).map_err(|m| format!("complement: {}", m))?;
        }
        let s = w.sel(b, 0);
        for r in starts(w.n(), 40) {
            let mut c = b.to_vec();
            c[r] = !c[r];
            let u = w.sel(&c, 1);
            rec.ops(2);
            if s == u { return Err(format!("equal to the selection differing at cell {}", r)); }
            let mut x = s.clone();
            if c[r] { x.union_in_place(w.iv(r, r)); } else { x.minus_in_place(w.iv(r, r)); }
            if x != u || std_hash(&x) != std_hash(&u) { return Err(format!("cell {} switched in place: {:?}, rebuilt {:?}", r, x, u)); }
        }
        Ok(())
    });
}
pub fn c19(cx: &mut Ctx) {
    both!(cx, per_win, "queries on hundreds of intervals", pick_sizes(cx, 140, 400), |w, p, _how, rec| {
        let r = w.n();
        for (lo, hi) in [(0, r - 1), (r / 2, r - 1), (1, r / 2)] {
            if lo > hi || hi >= r { continue; }
            let b = zip(p, &within(r, lo, hi), |x, y| x & y);
            let h = bhull(&b).map(|(i, j)| (w.cells[i].0.clone(), w.cells[j].1.clone()));
            let mut outer = None;
            for how in 0..3 {
                let s = w.sel(&b, how);
                rec.ops(12);
                w.is(&s, &b, true)?;
                if s.is_empty() != h.is_none() || s.is_full() != b.iter().all(|&x| x) { return Err(format!("is_empty(), is_full() are {}, {}", s.is_empty(), s.is_full())); }
                let e = h.clone().map_or(Interval::empty(), |(l, u)| Interval::closed(l, u));
                if s.enclose() != e || s.closure() != e { return Err(format!("enclose(), closure() are {:?}, {:?}; expected {:?}", s.enclose(), s.closure(), e)); }
                if s.lower_bound() != h.clone().map(|x| Bound::Include(x.0)) || s.upper_bound() != h.clone().map(|x| Bound::Include(x.1)) { return Err(format!("bounds are {:?}, {:?}", s.lower_bound(), s.upper_bound())); }
                if !s.is_bounded() || !s.is_left_bounded() || !s.is_right_bounded() || s.is_half_bounded() { return Err("not reported bounded".into()); }
                let x = (s.infimum(), s.supremum());
                if outer.get_or_insert(x.clone()) != &x { return Err(format!("infimum and supremum {:?} depend on how the selection was built ({:?})", x, outer)); }
                match (&h, &x) {
                    (None, (None, None)) => {}
                    (Some((l, u)), (i, j)) if (i.as_ref() == Some(l) || *i == l.pred()) && (j.as_ref() == Some(u) || *j == u.succ()) => {}
                    _ => return Err(format!("infimum and supremum are {:?}, the values lie in {:?}", x, h)),
                }
            }
        }
        Ok(())
    });
}
/// Values of a window, dropping the two outer cells.
pub fn values<T: V>(w: &Win<T>, b: &[bool]) -> (Bits, Vec<T>) {
    let b: Bits = b.iter().zip(&w.cells).map(|(&x, c)| x && c.0 == c.1).collect();
    let v = b.iter().zip(&w.cells).filter(|x| *x.0).map(|x| x.1 .0.clone()).collect();
    (b, v)
}
pub fn c20(cx: &mut Ctx) {
    let cap = cx.pick(40, 300);
    let ns = pick_sizes(cx, 40, 200);
    let (a, b) = wins(&ns);
    fn one<T: V>(w: &Win<T>, b: &[bool], how: usize, cap: usize, rec: &mut Rec) -> R {
        let (b, v) = values(w, b);
        let s = w.sel(&b, how);
        let l = w.ivs(&b);
        for c in scheds(v.len(), cap) {
            rec.ops(3 * v.len() as u64 + 9);
            drive_big(s.iter(), &v, c).map_err(|e| format!("iter: {}", e))?;
            drive_big(s.clone().into_iter(), &v, c).map_err(|e| format!("into_iter: {}", e))?;
            drive_big(<&Selection<T> as IntoIterator>::into_iter(&s), &v, c).map_err(|e| format!("into_iter of a reference: {}", e))?;
        }
        for c in scheds(l.len(), cap) {
            rec.ops(2 * l.len() as u64 + 6);
            drive_big(s.interval_iter(), &l, c).map_err(|e| format!("interval_iter: {}", e))?;
            drive_big(s.clone().into_interval_iter(), &l, c).map_err(|e| format!("into_interval_iter: {}", e))?;
        }
        ordered_big(&|| s.iter(), &v).map_err(|e| format!("iter: {}", e))?;
        ordered_big(&|| s.clone().into_iter(), &v).map_err(|e| format!("into_iter: {}", e))?;
        adaptors_big(&|| s.interval_iter(), &l).map_err(|e| format!("interval_iter: {}", e))?;
        adaptors_big(&|| s.clone().into_interval_iter(), &l).map_err(|e| format!("into_interval_iter: {}", e))
    }
    per_win(cx, "schedules over hundreds of items", a, &|w, b, how, rec| one(w, b, how, cap, rec));
    per_win(cx, "schedules over hundreds of items", b, &|w, b, how, rec| one(w, b, how, cap, rec));
    let gaps: [&[i64]; 3] = [&[-70_000, 0, 65_535, 65_536], &[i64::MIN, i64::MIN + 1, i64::MIN + 65_536], &[i64::MAX - 3, i64::MAX - 65_537, i64::MAX]];
    cx.enumerate("schedules over very long selections[i64]", 24, 3, |i| format!("80000 values on both sides of {:?}, schedule {}", gaps[i as usize / 8], i % 8), |i, rec| {
        let g = gaps[i as usize / 8];
        let (lo, hi) = (*g.iter().min().unwrap(), *g.iter().max().unwrap());
        let (lo, hi) = (lo.saturating_sub(40_000), hi.saturating_add(40_000));
        let mut s: Selection<i64> = Selection::from(Interval::closed(lo, hi));
        for &x in g { s.minus_in_place(Interval::point(x)); }
        let want: Vec<i64> = (lo..=hi).filter(|x| !g.contains(x)).collect();
        let n = want.len();
        let c = [Sched::FrontThenBack(n), Sched::BackThenFront(n), Sched::FrontThenBack(n / 2), Sched::BackThenFront(65_536), Sched::FrontThenBack(65_536), Sched::Mix(1, 1), Sched::Mix(1000, 7), Sched::Mix(7, 1000)][i as usize % 8];
        rec.ops(2 * n as u64);
        rec.out(i as u128);
        drive_big(s.iter(), &want, c).map_err(|e| format!("iter: {}", e))?;
        drive_big(s.clone().into_iter(), &want, c).map_err(|e| format!("into_iter: {}", e))
    });
    // Every value of the 16-bit types.
    cx.enumerate("every value of a 16-bit type", 8, 8, |i| format!("split {}", i), |i, rec| {
        let cut = [0usize, 1, 100, 32767, 32768, 40000, 65535, 65536][i as usize];
        let v: Vec<i16> = (i16::MIN..=i16::MAX).collect();
        rec.ops(2 * 65539);
        drive_big(Selection::<i16>::full().iter(), &v, Sched::FrontThenBack(cut))?;
        drive_big(Selection::<i16>::full().into_iter(), &v, Sched::BackThenFront(cut))
    });
}
pub fn c15(cx: &mut Ctx) {
    let cap = cx.pick(200, 2000);
    let lens: Vec<usize> = (1..=cx.pick(140, 600)).chain([255, 256, 257, 258, 511, 512, 513, 1000]).collect();
    let bases: [i32; 5] = [-32768, -300, -1, 0, i32::MAX];
    let n = (lens.len() * bases.len()) as u64;
    cx.enumerate("schedules over long intervals[i16]", n, n, |i| format!("{} values, start {}", lens[i as usize / bases.len()], bases[i as usize % bases.len()]), |i, rec| {
        let len = lens[i as usize / bases.len()] as i32;
        let b = bases[i as usize % bases.len()];
        let a = if b == i32::MAX { 32768 - len } else { b };
        let want: Vec<i16> = (a..a + len).map(|x| x as i16).collect();
        let iv = Interval::closed(want[0], *want.last().unwrap());
        rec.out(i as u128);
        for s in scheds(want.len(), cap.min(20_000 / want.len())) {
            rec.ops(3 * want.len() as u64);
            drive_big(iv.iter(), &want, s).map_err(|e| format!("iter: {}", e))?;
            drive_big(iv.clone().into_iter(), &want, s).map_err(|e| format!("into_iter: {}", e))?;
            drive_big(<&Interval<i16> as IntoIterator>::into_iter(&iv), &want, s).map_err(|e| format!("into_iter of a reference: {}", e))?;
        }
        ordered_big(&|| iv.iter(), &want)?;
        ordered_big(&|| iv.clone().into_iter(), &want)
    });
    let runs: [(i64, i64); 5] = [(-70_000, 70_001), (i64::MIN, i64::MIN + 65_540), (i64::MAX - 131_073, i64::MAX), (4_294_900_000, 4_295_030_000), (0, 200_000)];
    cx.enumerate("schedules over very long intervals[i64]", 40, 5, |i| format!("{:?} schedule {}", runs[i as usize / 8], i % 8), |i, rec| {
        let (a, e) = runs[i as usize / 8];
        let want: Vec<i64> = (a..=e).collect();
        let n = want.len();
        let s = [Sched::FrontThenBack(n), Sched::BackThenFront(n), Sched::FrontThenBack(n / 2), Sched::BackThenFront(65_536), Sched::FrontThenBack(65_536), Sched::Mix(1, 1), Sched::Mix(1000, 7), Sched::Mix(7, 1000)][i as usize % 8];
        rec.ops(n as u64);
        rec.out(i as u128);
        drive_big(Interval::closed(a, e).iter(), &want, s)?;
        drive_big(Interval::closed(a, e).into_iter(), &want, s)
    });
    cx.enumerate("every value of a 16-bit type", 8, 8, |i| format!("split {}", i), |i, rec| {
        let cut = [0usize, 1, 100, 32767, 32768, 40000, 65535, 65536][i as usize];
        let v: Vec<u16> = (0..=u16::MAX).collect();
        rec.ops(2 * 65539);
        drive_big(Interval::<u16>::full().iter(), &v, Sched::FrontThenBack(cut))?;
        drive_big(Interval::<u16>::full().into_iter(), &v, Sched::BackThenFront(cut))
    });
}
pub fn c21(cx: &mut Ctx) {
    both!(cx, per_win, "sequences of hundreds of items", pick_sizes(cx, 60, 300), |w, b, _how, rec| {
        let (bv, v) = values(w, b);
        // Whole intervals, and each again in two overlapping halves.
        let mut ivs = w.ivs(b);
        for (i, j) in bruns(b) { if j > i { ivs.push(w.iv(i, (i + j) / 2)); ivs.push(w.iv((i + j) / 2 + (i + j) % 2, j)); } }
        ivs.push(Interval::empty());
        for k in 0..ORDERS {
            rec.ops(4);
            let s: Selection<_> = order(k, v.len()).into_iter().map(|i| v[i].clone()).collect();
            w.canon(&s, &bv).map_err(|m| format!("collecting the values in order {}: {}", k, m))?;
            let s: Selection<_> = order(k, v.len()).into_iter().chain(order((k + 1) % ORDERS, v.len())).map(|i| v[i].clone()).collect();
            w.canon(&s, &bv).map_err(|m| format!("collecting the values twice in order {}: {}", k, m))?;
            let o = order(k, ivs.len());
            let s: Selection<_> = o.iter().map(|&i| ivs[i].clone()).collect();
            w.canon(&s, b).map_err(|m| format!("collecting the intervals in order {}: {}", k, m))?;
            if k == 0 {
                let q: Vec<_> = o.iter().map(|&i| ivs[i].clone()).collect();
                for j in 0..KINDS {
                    rec.ops(3);
                    let s: Selection<_> = kind(&v, j).collect();
                    if s != w.sel(&bv, 0) { return Err(format!("collecting the values from iterator kind {} gives {:?}", j, s)); }
                    let s: Selection<_> = kind(&q, j).collect();
                    if s != w.sel(b, 0) { return Err(format!("collecting the intervals from iterator kind {} gives {:?}", j, s)); }
                    let mut s: Selection<_> = q[..1].iter().cloned().collect();
                    s.extend(kind(&q, j));
                    if s != w.sel(b, 0) { return Err(format!("extending from iterator kind {} gives {:?}", j, s)); }
                }
            }
            for cut in [0, 1, o.len() / 2, o.len()] {
                let mut s: Selection<_> = o[..cut].iter().map(|&i| ivs[i].clone()).collect();
                s.extend(o[cut..].iter().map(|&i| ivs[i].clone()));
                w.is(&s, b, false)?;
                if s != w.sel(b, 0) { return Err(format!("collecting {} intervals in order {} and extending with the rest gives {:?}", cut, k, s)); }
            }
        }
        Ok(())
    });
    let ns = pick_sizes(cx, 80, 300);
    let np = PATS.len() as u64;
    cx.enumerate("sequences of hundreds of raw intervals", ns.len() as u64 * np, ns.len() as u64 * np, |i| format!("shape {} of {} end points", i % np, ns[(i / np) as usize]), |i, rec| {
        let line = Line { n: ns[(i / np) as usize] };
        let b = pattern((i % np) as usize, line.regions(), 0);
        let mut v = parts(&line, &b);
        for (i, j) in bruns(&b) { if j > i { v.push(line.raw(i, (i + j) / 2)); v.push(line.raw((i + j) / 2 + (i + j) % 2, j)); } }
        v.push(RawInterval::Empty);
        for j in 0..KINDS {
            rec.ops(2);
            tree_canon(&line, &kind(&v, j).collect(), &b).map_err(|m| format!("collecting from iterator kind {}: {}", j, m))?;
            tree_canon(&line, &Tree::from(kind(&v, j)), &b).map_err(|m| format!("from iterator kind {}: {}", j, m))?;
        }
        for k in 0..ORDERS {
            rec.ops(2);
            let o = order(k, v.len());
            let t: Tree = o.iter().map(|&i| v[i].clone()).collect();
            tree_canon(&line, &t, &b).map_err(|m| format!("collecting in order {}: {}", k, m))?;
            let t: Tree = o.iter().filter(|_| true).map(|&i| v[i].clone()).collect();
            tree_canon(&line, &t, &b).map_err(|m| format!("collecting without known length in order {}: {}", k, m))?;
            let t = Tree::from(o.iter().chain(&o).map(|&i| v[i].clone()));
            tree_canon(&line, &t, &b).map_err(|m| format!("twice in order {}: {}", k, m))?;
        }
        Ok(())
    });
}
pub fn c26(cx: &mut Ctx) {
    both!(cx, per_win_pair, "laws with hundreds of intervals", pick_sizes(cx, 16, 100), |w, x, y, how, rec| {
        let (a, b) = (w.sel(x, how), w.sel(y, how / 3));
        let (na, nb) = (a.complement(), b.complement());
        let (u, it, mi) = (a.union(&b), a.intersect(&b), a.minus(&b));
        rec.ops(20);
        let laws = [
            ("double complement", na.complement() == a), ("De Morgan (union)", u.complement() == na.intersect(&nb)),
            ("De Morgan (intersection)", it.complement() == na.union(&nb)), ("difference by complement", mi == a.intersect(&nb)),
            ("union commutes", u == b.union(&a)), ("intersection commutes", it == b.intersect(&a)),
            ("absorption", a.union(&it) == a), ("absorption (dual)", a.intersect(&u) == a),
            ("difference and intersection partition", mi.union(&it) == a), ("overlap", a.intersects(&b) != it.is_empty()),
        ];
        for (nm, ok) in laws { if !ok { return Err(format!("{} fails", nm)); } }
        let (mut p, mut q, mut r) = (a.clone(), a.clone(), a.clone());
        for iv in b.interval_iter() { p.union_in_place(iv.clone()); q.minus_in_place(iv); }
        for iv in nb.interval_iter() { r.minus_in_place(iv); }
        if p != u || q != mi || r != it { return Err("in-place operations, one interval at a time, give another result than the operation at once".into()); }
        Ok(())
    });
}

// ------------------------------------------------------------ bulk
/// Long sequences of raw intervals whose result is settled by items in any
/// two places.
pub fn c05(cx: &mut Ctx) {
    let lens: Vec<usize> = cx.pick((1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).collect(), (1..=140).chain([255, 256, 257, 300, 511, 512, 513]).collect());
    let cases: Vec<(usize, usize)> = lens.iter().flat_map(|&l| starts(l, 24).into_iter().map(move |p| (l, p))).collect();
    let k = cases.len() as u64;
    cx.enumerate("long sequences", k * 4, k * 4, |i| format!("{} items, place {}, kind {}", cases[(i / 4) as usize].0, cases[(i / 4) as usize].1, i % 4), |i, rec| {
        let (l, p) = cases[(i / 4) as usize];
        let line = Line { n: 2 * l + 6 };
        let r = line.regions();
        let mid = r / 2;
        for q in starts(l, 24) {
            // Item widths: nested around the middle, the tightest lower end
            // at p and the tightest upper end at q.
            let lo = |j: usize| { let d = 1 + (j + l - p) % l; mid - 2 - d.min(mid - 3) * ((i % 2) as usize + 1) / 2 };
            let hi = |j: usize| { let d = 1 + (j + l - q) % l; mid + 2 + d.min(mid - 3) * ((i % 2) as usize + 1) / 2 };
            let seq: Vec<(usize, usize)> = (0..l).map(|j| if i / 2 % 2 == 0 { (lo(j), hi(j)) } else { let c = (j * 7 + p) % (r - 4); (c, (c + (q + j) % 4).min(r - 1)) }).collect();
            let raws: Vec<Raw> = seq.iter().map(|&(a, b)| line.raw(a, b)).collect();
            rec.ops(3);
            let (a, b) = (seq.iter().map(|s| s.0).max().unwrap(), seq.iter().map(|s| s.1).min().unwrap());
            let want = if a <= b { line.raw(a, b) } else { RawInterval::Empty };
            let kd = (i as usize + p + q) % KINDS;
            let got = RawInterval::intersect_all(kind(&raws, kd));
            if got != want { return Err(format!("intersect_all (places {}, {}) gives {:?}, expected {:?}", p, q, got, want)); }
            let want = line.raw(seq.iter().map(|s| s.0).min().unwrap(), seq.iter().map(|s| s.1).max().unwrap());
            let got = RawInterval::enclose_all(kind(&raws, (kd + 1) % KINDS));
            if got != want { return Err(format!("enclose_all (places {}, {}) gives {:?}, expected {:?}", p, q, got, want)); }
            let mut want = vec![false; r];
            for &(a, b) in &seq { for x in &mut want[a..=b] { *x = true; } }
            let got: Vec<Raw> = RawInterval::union_all(kind(&raws, (kd + 2) % KINDS)).take(4 * r).collect();
            let mut have = vec![false; r];
            for g in &got { if *g == RawInterval::Empty { continue; } for (x, h) in have.iter_mut().enumerate() { if !*h && g.contains(&probe(x)) { *h = true; } } }
            if have != want { return Err(format!("union_all (places {}, {}) gives {:?}, expected {:?}", p, q, got, parts(&line, &want))); }
            if q + 1 == l {
                let mut asc: Vec<&(usize, usize)> = seq.iter().collect();
                asc.sort();
                rec.op();
                let got: Vec<Raw> = RawInterval::union_all(asc.iter().map(|s| line.raw(s.0, s.1))).take(4 * r).collect();
                if got != parts(&line, &want) { return Err(format!("union_all in ascending order (places {}, {}) gives {:?}, expected {:?}", p, q, got, parts(&line, &want))); }
            }
        }
        rec.out(i as u128);
        Ok(())
    });
}
