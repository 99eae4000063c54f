//! Every small content at one place of a large object: what is exhaustive in
//! the small scopes is repeated inside objects of many intervals, so code
//! that runs on large objects only meets every local situation too.
use crate::big::*;
use crate::engine::*;
use crate::model::*;
use crate::tree::Tree;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval, Selection};
use std::fmt::Debug;

/// What surrounds the place: nothing, points, excluded points, a mixture, all.
const PADS: [&[u8]; 5] = [&[0, 1, 0, 0, 1, 1, 1, 0], &[0, 1], &[1, 0], &[0], &[1]];
fn put(pad: usize, r: usize, at: usize, w: usize, bits: u64) -> Bits {
    (0..r).map(|i| if i >= at && i < at + w { bits >> (i - at) & 1 == 1 } else { PADS[pad][i % PADS[pad].len()] == 1 }).collect()
}
/// Places for `w` cells among `r`: first, last, and in between at both parities.
fn places(r: usize, w: usize) -> Vec<usize> {
    let mut v = vec![0, 1, r / 2 - w / 2, r / 2 - w / 2 + 1, r - w - 1, r - w];
    v.sort();
    v.dedup();
    v
}
#[derive(Clone, Copy, Debug)]
struct One { n: usize, pad: usize, at: usize, w: usize }
/// All surroundings of one content, over objects of `r(n)` cells.
fn ones(ns: &[usize], pads: usize, w: usize, r: &dyn Fn(usize) -> usize) -> Vec<One> {
    let mut v = vec![];
    for &n in ns { if r(n) >= w + 2 { for pad in 0..pads { for at in places(r(n), w) { v.push(One { n, pad, at, w }); } } } }
    v
}
fn line_r(n: usize) -> usize { 2 * n + 1 }
fn sel_r(n: usize) -> usize { n + 1 }
/// Operands with ends in and around the place, and beyond everything.
fn operands(r: usize, at: usize, w: usize) -> Vec<(usize, usize)> {
    let lo: Vec<usize> = std::iter::once(0).chain(at.saturating_sub(1)..at + w).collect();
    let hi: Vec<usize> = (at..(at + w + 1).min(r)).chain(std::iter::once(r - 1)).collect();
    let mut v: Vec<(usize, usize)> = lo.iter().flat_map(|&a| hi.iter().filter(move |&&b| b >= a).map(move |&b| (a, b))).collect();
    v.sort();
    v.dedup();
    v
}
fn each(cx: &mut Ctx, name: &str, cs: &[One], f: &(dyn Fn(One, u64, &mut Rec) -> R + Sync)) {
    let total: Vec<u64> = cs.iter().scan(0u64, |s, c| { let a = *s; *s += 1 << c.w; Some(a) }).collect();
    let n = cs.iter().map(|c| 1u64 << c.w).sum();
    let find = |i: u64| { let k = total.partition_point(|&t| t <= i) - 1; (cs[k], i - total[k]) };
    cx.enumerate(name, n, n, |i| { let (c, bits) = find(i); format!("{:?}, content {:b}", c, bits) }, |i, rec| {
        let (c, bits) = find(i);
        rec.out(i as u128);
        f(c, bits, rec)
    });
}
/// Both operands vary at the same place.
fn pairs(cx: &mut Ctx, name: &str, cs: &[One], f: &(dyn Fn(One, usize, u64, u64, &mut Rec) -> R + Sync)) {
    let np = PADS.len() as u64;
    let total: Vec<u64> = cs.iter().scan(0u64, |s, c| { let a = *s; *s += np << (2 * c.w); Some(a) }).collect();
    let n: u64 = cs.iter().map(|c| np << (2 * c.w)).sum();
    let states = cs.iter().map(|c| 1u64 << c.w).sum();
    let find = |i: u64| { let k = total.partition_point(|&t| t <= i) - 1; let j = i - total[k]; let c = cs[k]; (c, (j % np) as usize, j / np >> c.w, j / np & ((1 << c.w) - 1)) };
    cx.enumerate(name, n, states, |i| { let (c, q, x, y) = find(i); format!("{:?}, other pad {}, contents {:b} and {:b}", c, q, x, y) }, |i, rec| {
        let (c, q, x, y) = find(i);
        rec.out(i as u128);
        f(c, q, x, y, rec)
    });
}

/// Two places of `w` cells, and the operands with one end in each.
#[derive(Clone, Copy, Debug)]
struct Two { n: usize, pad: usize, at: usize, bt: usize, w: usize }
fn twos(ns: &[usize], w: usize, r: &dyn Fn(usize) -> usize) -> Vec<Two> {
    let mut v = vec![];
    for &n in ns {
        let r = r(n);
        for pad in 0..4 { for at in [0, 1, r / 3, r / 3 + 1] { for bt in [at + w, at + w + 1, r - w - 5, r - w - 4, r - w] {
            if bt >= at + w && bt + w <= r { v.push(Two { n, pad, at, bt, w }); }
        } } }
    }
    v.dedup_by_key(|t| (t.n, t.pad, t.at, t.bt));
    v
}
impl Two {
    fn bits(&self, r: usize, x: u64) -> Bits {
        let mut b = put(self.pad, r, self.at, self.w, x & ((1 << self.w) - 1));
        for i in 0..self.w { b[self.bt + i] = x >> (self.w + i) & 1 == 1; }
        b
    }
    fn spans(&self) -> impl Iterator<Item = (usize, usize)> + '_ { (self.at..self.at + self.w).flat_map(|a| (self.bt..self.bt + self.w).map(move |b| (a, b))) }
}
/// Every content of both places.
fn both(cx: &mut Ctx, name: &str, cs: &[Two], f: &(dyn Fn(Two, u64, &mut Rec) -> R + Sync)) {
    if cs.is_empty() { return; }
    let per = 1u64 << (2 * cs[0].w);
    let n = cs.len() as u64 * per;
    cx.enumerate(name, n, n, |i| format!("{:?}, contents {:b}", cs[(i / per) as usize], i % per), |i, rec| {
        rec.out(i as u128);
        f(cs[(i / per) as usize], i % per, rec)
    });
}
/// Every content of both places in both operands, and every other filling.
fn both_pairs(cx: &mut Ctx, name: &str, cs: &[Two], f: &(dyn Fn(Two, usize, u64, u64, &mut Rec) -> R + Sync)) {
    if cs.is_empty() { return; }
    let (k, np) = (1u64 << (2 * cs[0].w), PADS.len() as u64);
    let per = k * k * np;
    let n = cs.len() as u64 * per;
    let find = |i: u64| { let j = i % per; (cs[(i / per) as usize], (j % np) as usize, j / np / k, j / np % k) };
    cx.enumerate(name, n, cs.len() as u64 * k, |i| { let (c, q, x, y) = find(i); format!("{:?}, other pad {}, contents {:b} and {:b}", c, q, x, y) }, |i, rec| {
        let (c, q, x, y) = find(i);
        rec.out(i as u128);
        f(c, q, x, y, rec)
    });
}

// ------------------------------------------------------------------ trees
pub fn c07(cx: &mut Ctx) {
    let ns: Vec<usize> = cx.pick((5..=18).chain([20, 24, 33, 34, 65, 66, 130, 260, 520]).collect(), (5..=40).chain([64, 65, 100, 130, 200, 260, 520, 1030]).collect());
    let cs = ones(&ns, 4, cx.pick(6, 8), &line_r);
    each(cx, "one operation at a place of a large tree", &cs, &|c, bits, rec| {
        let line = Line { n: c.n };
        let r = line.regions();
        let b = put(c.pad, r, c.at, c.w, bits);
        let base = tree(&line, &b, bits as usize);
        tree_is(&line, &base, &b, false)?;
        for (a, e) in operands(r, c.at, c.w) {
            let (iv, x) = (line.raw(a, e), within(r, a, e));
            rec.ops(3);
            let mut t = base.clone();
            t.union_in_place(&iv);
            tree_is(&line, &t, &zip(&b, &x, |p, q| p | q), false).map_err(|m| format!("union with {:?}: {}", iv, m))?;
            let mut t = base.clone();
            t.minus_in_place(&iv);
            tree_is(&line, &t, &zip(&b, &x, |p, q| p & !q), false).map_err(|m| format!("minus {:?}: {}", iv, m))?;
            let mut t = base.clone();
            t.intersect_in_place(&iv);
            tree_is(&line, &t, &zip(&b, &x, |p, q| p & q), false).map_err(|m| format!("intersect {:?}: {}", iv, m))?;
        }
        Ok(())
    });
    let cs = twos(&cx.pick(vec![8, 14, 22, 40, 70, 140], vec![8, 10, 14, 18, 22, 30, 40, 70, 140, 270, 530]), 4, &line_r);
    both(cx, "one operation between two places of a large tree", &cs, &|c, x, rec| {
        let line = Line { n: c.n };
        let r = line.regions();
        let b = c.bits(r, x);
        let base = tree(&line, &b, 0);
        for (a, e) in c.spans() {
            let (iv, y) = (line.raw(a, e), within(r, a, e));
            rec.ops(3);
            let mut v = [base.clone(), base.clone(), base.clone()];
            v[0].union_in_place(&iv);
            v[1].minus_in_place(&iv);
            v[2].intersect_in_place(&iv);
            for (k, want) in [zip(&b, &y, |p, q| p | q), zip(&b, &y, |p, q| p & !q), zip(&b, &y, |p, q| p & q)].iter().enumerate() {
                tree_is(&line, &v[k], want, false).map_err(|m| format!("{} {:?}: {}", ["union with", "minus", "intersect"][k], iv, m))?;
            }
        }
        Ok(())
    });
}
fn tree_pairs(cx: &mut Ctx, small: &[usize], large: &[usize], w: usize) -> Vec<One> {
    let _ = &cx;
    let mut cs = ones(small, PADS.len(), w, &line_r);
    cs.extend(ones(large, PADS.len(), 2, &line_r));
    cs
}
fn tree_ops<'a>(a: &[bool], b: &[bool], ta: &Tree, tb: &Tree) -> [(&'static str, Tree, Bits); 4] {
    [("union", ta.union(tb), zip(a, b, |x, y| x | y)), ("intersect", ta.intersect(tb), zip(a, b, |x, y| x & y)), ("minus", ta.minus(tb), zip(a, b, |x, y| x & !y)), ("complement", ta.complement(), not(a))]
}
pub fn c08(cx: &mut Ctx) {
    let cs = tree_pairs(cx, &cx.pick(vec![5, 8, 10, 18, 34], vec![5, 6, 8, 9, 10, 12, 17, 18, 24, 33, 34, 40, 66]), &cx.pick(vec![66, 132], vec![66, 132, 264, 520]), cx.pick(4, 6));
    pairs(cx, "pairs differing at a place of large trees", &cs, &|c, q, x, y, rec| {
        let line = Line { n: c.n };
        let (a, b) = (put(c.pad, line.regions(), c.at, c.w, x), put(q, line.regions(), c.at, c.w, y));
        let (ta, tb) = (tree(&line, &a, x as usize), tree(&line, &b, y as usize));
        rec.ops(4);
        for (op, t, want) in tree_ops(&a, &b, &ta, &tb) { tree_is(&line, &t, &want, false).map_err(|m| format!("{}: {}", op, m))?; }
        Ok(())
    });
    let cs = twos(&cx.pick(vec![8, 14, 30, 66], vec![8, 10, 14, 18, 22, 30, 40, 70, 140, 270]), 2, &line_r);
    both_pairs(cx, "pairs differing at two places of large trees", &cs, &|c, q, x, y, rec| {
        let line = Line { n: c.n };
        let (a, b) = (c.bits(line.regions(), x), Two { pad: q, ..c }.bits(line.regions(), y));
        let (ta, tb) = (tree(&line, &a, 0), tree(&line, &b, 0));
        rec.ops(4);
        for (op, t, want) in tree_ops(&a, &b, &ta, &tb) { tree_is(&line, &t, &want, false).map_err(|m| format!("{}: {}", op, m))?; }
        Ok(())
    });
}
pub fn c09(cx: &mut Ctx) {
    let cs = tree_pairs(cx, &cx.pick(vec![5, 8, 10, 18, 34], vec![5, 6, 9, 12, 17, 18, 33]), &cx.pick(vec![66], vec![66, 132, 264]), cx.pick(4, 5));
    pairs(cx, "results differing at a place of large trees", &cs, &|c, q, x, y, rec| {
        let line = Line { n: c.n };
        let (a, b) = (put(c.pad, line.regions(), c.at, c.w, x), put(q, line.regions(), c.at, c.w, y));
        let (ta, tb) = (tree(&line, &a, x as usize), tree(&line, &b, y as usize));
        rec.ops(4);
        if (ta == tb) != (a == b) { return Err(format!("equality of {:?} and {:?} is {}", ta, tb, ta == tb)); }
        for (op, t, want) in tree_ops(&a, &b, &ta, &tb) {
            let (got, ps) = (list(&t, line.regions())?, parts(&line, &want));
            if got != ps { return Err(format!("{} lists {:?}, expected {:?}", op, got, ps)); }
            let o = tree(&line, &want, x as usize + 1);
            if t != o || std_hash(&t) != std_hash(&o) { return Err(format!("{} gives {:?}, not equal to {:?}", op, t, o)); }
        }
        Ok(())
    });
    let cs = ones(&cx.pick(vec![5, 7, 9, 12, 17, 33, 66, 132], (5..=40).chain([64, 66, 100, 132, 200, 264]).collect()), 4, cx.pick(6, 8), &line_r);
    each(cx, "in-place results at a place of large trees", &cs, &|c, bits, rec| {
        let line = Line { n: c.n };
        let r = line.regions();
        let b = put(c.pad, r, c.at, c.w, bits);
        for how in 0..4 { tree_canon(&line, &tree(&line, &b, how), &b).map_err(|m| format!("built in way {}: {}", how, m))?; }
        let base = tree(&line, &b, bits as usize);
        for (a, e) in operands(r, c.at, c.w) {
            let (iv, x) = (line.raw(a, e), within(r, a, e));
            rec.ops(3);
            let mut v = [base.clone(), base.clone(), base.clone()];
            v[0].union_in_place(&iv);
            v[1].minus_in_place(&iv);
            v[2].intersect_in_place(&iv);
            for (k, want) in [zip(&b, &x, |p, q| p | q), zip(&b, &x, |p, q| p & !q), zip(&b, &x, |p, q| p & q)].iter().enumerate() {
                let o = tree(&line, want, k + 1);
                if v[k] != o || std_hash(&v[k]) != std_hash(&o) { return Err(format!("{} {:?} gives {:?}, not equal to {:?}", ["union", "minus", "intersect"][k], iv, v[k], o)); }
            }
        }
        Ok(())
    });
    let cs = twos(&cx.pick(vec![8, 22, 40, 80], vec![8, 10, 14, 18, 22, 30, 40, 70, 140]), 4, &line_r);
    both(cx, "in-place results between two places of a large tree", &cs, &|c, x, rec| {
        let line = Line { n: c.n };
        let r = line.regions();
        let b = c.bits(r, x);
        let base = tree(&line, &b, 0);
        for (a, e) in c.spans() {
            let (iv, y) = (line.raw(a, e), within(r, a, e));
            rec.ops(3);
            let mut v = [base.clone(), base.clone(), base.clone()];
            v[0].union_in_place(&iv);
            v[1].minus_in_place(&iv);
            v[2].intersect_in_place(&iv);
            for (k, want) in [zip(&b, &y, |p, q| p | q), zip(&b, &y, |p, q| p & !q), zip(&b, &y, |p, q| p & q)].iter().enumerate() {
                tree_canon(&line, &v[k], want).map_err(|m| format!("{} {:?}: {}", ["union with", "minus", "intersect"][k], iv, m))?;
            }
        }
        Ok(())
    });
}
pub fn c10(cx: &mut Ctx) {
    let cs = ones(&cx.pick(vec![6, 7, 9, 16, 17, 33, 66, 130], (6..=40).chain([64, 66, 130, 260, 520]).collect()), PADS.len(), cx.pick(9, 11), &line_r);
    each(cx, "queries with a place of a large tree varied", &cs, &|c, bits, rec| {
        let line = Line { n: c.n };
        let r = line.regions();
        let b = put(c.pad, r, c.at, c.w, bits);
        let t = tree(&line, &b, bits as usize);
        rec.ops(8);
        tree_is(&line, &t, &b, false)?;
        // Membership everywhere near the place, and along the whole object.
        for p in starts(r, 24).into_iter().chain(c.at.saturating_sub(2)..(c.at + c.w + 2).min(r)) { if t.contains(&probe(p)) != b[p] { return Err(format!("contains({:?}) is {}", probe(p), !b[p])); } }
        let h = bhull(&b);
        if t.is_empty() != h.is_none() { return Err(format!("is_empty() is {}", t.is_empty())); }
        if t.is_full() != b.iter().all(|&x| x) { return Err(format!("is_full() is {}", t.is_full())); }
        let want = h.map_or(RawInterval::Empty, |(a, e)| line.raw(a, e));
        if t.lower_bound() != want.lower_bound() || t.upper_bound() != want.upper_bound() || t.enclose() != want { return Err(format!("bounds {:?}, {:?}, enclosure {:?}; expected {:?}", t.lower_bound(), t.upper_bound(), t.enclose(), want)); }
        let k = h.map_or(RawInterval::Empty, |(a, e)| line.raw(if a > 0 && a % 2 == 0 { a - 1 } else { a }, if e < r - 1 && e % 2 == 0 { e + 1 } else { e }));
        if t.closure() != k { return Err(format!("closure is {:?}, expected {:?}", t.closure(), k)); }
        Ok(())
    });
}
/// Every place where the front and the back can meet.
fn meetings(n: usize) -> Vec<Sched> { (0..=n + 1).map(Sched::FrontThenBack).chain((0..=n + 1).map(Sched::BackThenFront)).chain([Sched::Mix(1, 1), Sched::Mix(2, 1), Sched::Mix(1, 3)]).collect() }
pub fn c11(cx: &mut Ctx) {
    let cs = ones(&cx.pick(vec![5, 6, 8, 10, 12, 17, 34, 66], (5..=40).chain([66, 130]).collect()), 4, cx.pick(7, 9), &line_r);
    each(cx, "meeting anywhere, with a place of a large tree varied", &cs, &|c, bits, rec| {
        let line = Line { n: c.n };
        let b = put(c.pad, line.regions(), c.at, c.w, bits);
        let t = tree(&line, &b, bits as usize);
        let want = parts(&line, &b);
        for s in meetings(want.len()) {
            rec.ops(2 * want.len() as u64 + 6);
            drive_big(t.interval_iter(), &want, s).map_err(|e| format!("interval_iter: {}", e))?;
            drive_big(t.clone().into_iter(), &want, s).map_err(|e| format!("into_iter: {}", e))?;
        }
        if c.n <= 12 {
            adaptors_big(&|| t.interval_iter(), &want).map_err(|e| format!("interval_iter: {}", e))?;
            adaptors_big(&|| t.clone().into_iter(), &want).map_err(|e| format!("into_iter: {}", e))?;
        }
        Ok(())
    });
}
pub fn c21(cx: &mut Ctx) {
    let cs = ones(&cx.pick(vec![5, 6, 9, 12, 17, 34, 66, 132], (5..=40).chain([66, 132, 264]).collect()), 4, cx.pick(7, 9), &line_r);
    each(cx, "collecting with a place of a large tree varied", &cs, &|c, bits, rec| {
        let line = Line { n: c.n };
        let b = put(c.pad, line.regions(), c.at, c.w, bits);
        // What lies at the place comes separately: before, amid or after the rest.
        let out = put(c.pad, line.regions(), c.at, c.w, 0);
        let (mut v, rest) = (vec![], parts(&line, &out));
        for (i, j) in bruns(&zip(&b, &out, |x, y| x & !y)) { v.push(line.raw(i, j)); if j > i { v.push(line.raw(i, i)); v.push(line.raw(j, j)); } }
        let want = tree(&line, &b, 2);
        for k in 0..3 {
            rec.ops(2);
            let cut = [0, rest.len() / 2, rest.len()][k];
            let all: Vec<Raw> = rest[..cut].iter().chain(&v).chain(&rest[cut..]).cloned().collect();
            let t: Tree = all.iter().cloned().collect();
            if t != want { return Err(format!("collecting {:?} gives {:?}, not {:?}", all, t, want)); }
            let t: Tree = all.iter().rev().cloned().collect();
            if t != want { return Err(format!("collecting {:?} in reverse gives {:?}, not {:?}", all, t, want)); }
        }
        Ok(())
    });
    sel_ones(cx, "collecting with a place of a large selection varied", cx.pick(vec![8, 10, 12, 20, 36, 70, 132], (8..=40).chain([70, 130, 264]).collect()), cx.pick(6, 8), |w, c, b, _bits, rec| {
        let out = put(c.pad, w.n(), c.at, c.w, 0);
        let (mut v, rest) = (vec![], w.ivs(&out));
        for (i, j) in bruns(&zip(b, &out, |x, y| x & !y)) { v.push(w.iv(i, j)); if j > i { v.push(w.iv(i, i)); v.push(w.iv(j, j)); } }
        let want = w.sel(b, 2);
        for k in 0..3 {
            rec.ops(3);
            let cut = [0, rest.len() / 2, rest.len()][k];
            let all: Vec<Interval<_>> = rest[..cut].iter().chain(&v).chain(&rest[cut..]).cloned().collect();
            let s: Selection<_> = all.iter().cloned().collect();
            if s != want { return Err(format!("collecting {:?} gives {:?}, not {:?}", all, s, want)); }
            let s: Selection<_> = all.iter().rev().cloned().collect();
            if s != want { return Err(format!("collecting {:?} in reverse gives {:?}, not {:?}", all, s, want)); }
            let mut s: Selection<_> = all[..cut].iter().cloned().collect();
            s.extend(all[cut..].iter().cloned());
            if s != want { return Err(format!("collecting {} of {:?} and extending with the rest gives {:?}, not {:?}", cut, all, s, want)); }
        }
        Ok(())
    });
}

// ------------------------------------------------------------- selections
fn win(n: usize, pad: usize) -> Win<i16> {
    match pad % 3 {
        0 => Win::new("i16 around 0", -(n as i16 / 2), n),
        1 => Win::new("i16 from the minimum", i16::MIN, n),
        _ => Win::new("i16 up to the maximum", i16::MAX - (n as i16 - 1), n),
    }
}
fn sel_ones<F>(cx: &mut Ctx, name: &str, ns: Vec<usize>, w: usize, f: F)
where F: Fn(&Win<i16>, One, &[bool], u64, &mut Rec) -> R + Sync {
    let cs = ones(&ns, 4, w, &sel_r);
    each(cx, name, &cs, &|c, bits, rec| {
        let w = win(c.n, c.pad + c.at);
        f(&w, c, &put(c.pad, w.n(), c.at, c.w, bits), bits, rec)
    });
}
fn sel_pairs<F>(cx: &mut Ctx, name: &str, small: Vec<usize>, large: Vec<usize>, w: usize, f: F)
where F: Fn(&Win<i16>, &[bool], &[bool], usize, &mut Rec) -> R + Sync {
    let mut cs = ones(&small, PADS.len(), w, &sel_r);
    cs.extend(ones(&large, PADS.len(), 2, &sel_r));
    pairs(cx, name, &cs, &|c, q, x, y, rec| {
        let w = win(c.n, c.pad + c.at);
        f(&w, &put(c.pad, w.n(), c.at, c.w, x), &put(q, w.n(), c.at, c.w, y), (x * 5 + y) as usize, rec)
    });
}
fn sel_results(a: &[bool], b: &[bool], s: &Selection<i16>, t: &Selection<i16>) -> [(&'static str, Selection<i16>, Bits); 4] {
    [("union", s.union(t), zip(a, b, |x, y| x | y)), ("intersect", s.intersect(t), zip(a, b, |x, y| x & y)), ("minus", s.minus(t), zip(a, b, |x, y| x & !y)), ("complement", s.complement(), not(a))]
}
pub fn c16(cx: &mut Ctx) {
    sel_ones(cx, "one operation at a place of a large selection", cx.pick((8..=18).chain([20, 24, 33, 34, 65, 66, 130, 260, 520]).collect(), (8..=40).chain([64, 65, 66, 100, 130, 200, 260, 520, 1030]).collect()), cx.pick(6, 8), |w, c, b, bits, rec| {
        let r = w.n();
        let base = w.sel(b, bits as usize);
        w.is(&base, b, false)?;
        for (a, e) in operands(r, c.at, c.w) {
            let (iv, x) = (w.iv(a, e), within(r, a, e));
            rec.ops(4);
            let mut v = [base.clone(), base.clone(), base.clone(), base.clone()];
            v[0].union_in_place(iv.clone());
            v[1].minus_in_place(iv.clone());
            v[2].intersect_in_place(iv.clone());
            v[3].extend([iv.clone()]);
            let u = zip(b, &x, |p, q| p | q);
            for (k, want) in [&u, &zip(b, &x, |p, q| p & !q), &zip(b, &x, |p, q| p & q), &u].iter().enumerate() {
                w.is(&v[k], want, false).map_err(|m| format!("{} {:?}: {}", ["union with", "minus", "intersect", "extend with"][k], iv, m))?;
            }
        }
        Ok(())
    });
    let cs = twos(&cx.pick(vec![10, 14, 22, 40, 70, 140], vec![10, 14, 18, 22, 30, 40, 70, 140, 270, 530]), 3, &sel_r);
    both(cx, "one operation between two places of a large selection", &cs, &|c, x, rec| {
        let w = win(c.n, c.pad + c.at);
        let r = w.n();
        let b = c.bits(r, x);
        let base = w.sel(&b, 0);
        for (a, e) in c.spans() {
            let (iv, y) = (w.iv(a, e), within(r, a, e));
            rec.ops(4);
            let mut v = [base.clone(), base.clone(), base.clone(), base.clone()];
            v[0].union_in_place(iv.clone());
            v[1].minus_in_place(iv.clone());
            v[2].intersect_in_place(iv.clone());
            v[3].extend([iv.clone()]);
            let u = zip(&b, &y, |p, q| p | q);
            for (k, want) in [&u, &zip(&b, &y, |p, q| p & !q), &zip(&b, &y, |p, q| p & q), &u].iter().enumerate() {
                w.is(&v[k], want, false).map_err(|m| format!("{} {:?}: {}", ["union with", "minus", "intersect", "extend with"][k], iv, m))?;
            }
        }
        Ok(())
    });
}
pub fn c17(cx: &mut Ctx) {
    sel_pairs(cx, "pairs differing at a place of large selections", cx.pick(vec![8, 10, 12, 20, 36, 66], vec![8, 9, 10, 12, 16, 20, 24, 33, 36, 66]), cx.pick(vec![132], vec![132, 264, 520]), cx.pick(4, 6), |w, a, b, how, rec| {
        let (s, t) = (w.sel(a, how), w.sel(b, how / 3));
        rec.ops(5);
        for (op, o, want) in sel_results(a, b, &s, &t) { w.is(&o, &want, false).map_err(|m| format!("{}: {}", op, m))?; }
        let meet = a.iter().zip(b).any(|(&x, &y)| x && y);
        if s.intersects(&t) != meet { return Err(format!("intersects is {}, expected {}", s.intersects(&t), meet)); }
        Ok(())
    });
    let cs = twos(&cx.pick(vec![10, 22, 40, 70], vec![10, 14, 18, 22, 30, 40, 70, 140, 270]), 2, &sel_r);
    both_pairs(cx, "pairs differing at two places of large selections", &cs, &|c, q, x, y, rec| {
        let w = win(c.n, c.pad + c.at);
        let (a, b) = (c.bits(w.n(), x), Two { pad: q, ..c }.bits(w.n(), y));
        let (s, t) = (w.sel(&a, 0), w.sel(&b, 0));
        rec.ops(5);
        for (op, o, want) in sel_results(&a, &b, &s, &t) { w.is(&o, &want, false).map_err(|m| format!("{}: {}", op, m))?; }
        let meet = a.iter().zip(&b).any(|(&x, &y)| x && y);
        if s.intersects(&t) != meet { return Err(format!("intersects is {}, expected {}", s.intersects(&t), meet)); }
        Ok(())
    });
}
pub fn c18(cx: &mut Ctx) {
    sel_pairs(cx, "results differing at a place of large selections", cx.pick(vec![8, 10, 12, 20, 36], vec![8, 9, 10, 12, 20, 33, 36, 66]), cx.pick(vec![66], vec![132, 264]), cx.pick(4, 5), |w, a, b, how, rec| {
        let (s, t) = (w.sel(a, how), w.sel(b, how / 3));
        rec.ops(4);
        if (s == t) != (a == b) { return Err(format!("equality of {:?} and {:?} is {}", s, t, s == t)); }
        for (op, o, want) in sel_results(a, b, &s, &t) {
            let got = w.list(&o)?;
            if got != w.ivs(&want) { return Err(format!("{} lists {:?}, expected {:?}", op, got, w.ivs(&want))); }
            let u = w.sel(&want, how + 1);
            if o != u || std_hash(&o) != std_hash(&u) { return Err(format!("{} gives {:?}, not equal to {:?}", op, o, u)); }
        }
        Ok(())
    });
    sel_ones(cx, "in-place results at a place of large selections", cx.pick(vec![8, 9, 10, 12, 16, 20, 36, 70, 132], (8..=40).chain([70, 132, 264]).collect()), cx.pick(5, 7), |w, c, b, bits, rec| {
        let r = w.n();
        w.canon(&w.sel(b, bits as usize), b)?;
        let base = w.sel(b, bits as usize);
        for (a, e) in operands(r, c.at, c.w) {
            let (iv, x) = (w.iv(a, e), within(r, a, e));
            rec.ops(4);
            let mut v = [base.clone(), base.clone(), base.clone(), base.clone()];
            v[0].union_in_place(iv.clone());
            v[1].minus_in_place(iv.clone());
            v[2].intersect_in_place(iv.clone());
            v[3].extend([iv.clone()]);
            let u = zip(b, &x, |p, q| p | q);
            for (k, want) in [&u, &zip(b, &x, |p, q| p & !q), &zip(b, &x, |p, q| p & q), &u].iter().enumerate() {
                let o = w.sel(want, k + 1);
                if v[k] != o || std_hash(&v[k]) != std_hash(&o) { return Err(format!("{} {:?} gives {:?}, not equal to {:?}", ["union with", "minus", "intersect", "extend with"][k], iv, v[k], o)); }
            }
        }
        Ok(())
    });
    let cs = twos(&cx.pick(vec![10, 22, 40, 80], vec![10, 14, 18, 22, 30, 40, 70, 140]), 3, &sel_r);
    both(cx, "in-place results between two places of a large selection", &cs, &|c, x, rec| {
        let w = win(c.n, c.pad + c.at);
        let r = w.n();
        let b = c.bits(r, x);
        let base = w.sel(&b, 0);
        for (a, e) in c.spans() {
            let (iv, y) = (w.iv(a, e), within(r, a, e));
            rec.ops(4);
            let mut v = [base.clone(), base.clone(), base.clone(), base.clone()];
            v[0].union_in_place(iv.clone());
            v[1].minus_in_place(iv.clone());
            v[2].intersect_in_place(iv.clone());
            v[3].extend([iv.clone()]);
            let u = zip(&b, &y, |p, q| p | q);
            for (k, want) in [&u, &zip(&b, &y, |p, q| p & !q), &zip(&b, &y, |p, q| p & q), &u].iter().enumerate() {
                w.canon(&v[k], want).map_err(|m| format!("{} {:?}: {}", ["union with", "minus", "intersect", "extend with"][k], iv, m))?;
            }
        }
        Ok(())
    });
}
pub fn c19(cx: &mut Ctx) {
    sel_ones(cx, "queries with a place of a large selection varied", cx.pick((9..=20).chain([33, 36, 66, 130, 260]).collect(), (9..=40).chain([64, 66, 130, 260, 520]).collect()), cx.pick(8, 10), |w, c, b, bits, rec| {
        let s = w.sel(b, bits as usize);
        rec.ops(12);
        w.is(&s, b, false)?;
        for k in starts(w.n(), 24).into_iter().chain(c.at.saturating_sub(2)..(c.at + c.w + 2).min(w.n())) { let (x, y) = &w.cells[k]; if s.contains(x) != b[k] || s.contains(y) != b[k] { return Err(format!("contains({:?}), contains({:?}) are {}, {}, expected {}", x, y, s.contains(x), s.contains(y), b[k])); } }
        let h = bhull(b).map(|(i, j)| (w.cells[i].0, w.cells[j].1));
        if s.is_empty() != h.is_none() || s.is_full() != b.iter().all(|&x| x) { return Err(format!("is_empty(), is_full() are {}, {}", s.is_empty(), s.is_full())); }
        let e = h.map_or(Interval::empty(), |(l, u)| Interval::closed(l, u));
        if s.enclose() != e || s.closure() != e { return Err(format!("enclose(), closure() are {:?}, {:?}; expected {:?}", s.enclose(), s.closure(), e)); }
        if s.lower_bound() != h.map(|x| Bound::Include(x.0)) || s.upper_bound() != h.map(|x| Bound::Include(x.1)) { return Err(format!("bounds are {:?}, {:?}", s.lower_bound(), s.upper_bound())); }
        if !s.is_bounded() || !s.is_left_bounded() || !s.is_right_bounded() || s.is_half_bounded() { return Err("not reported bounded".into()); }
        match (h, s.infimum(), s.supremum()) {
            (None, None, None) => {}
            (Some((l, u)), i, j) if (i == Some(l) || i == l.checked_sub(1)) && (j == Some(u) || j == u.checked_add(1)) => {}
            (h, i, j) => return Err(format!("infimum and supremum are {:?}, {:?}, the values lie in {:?}", i, j, h)),
        }
        Ok(())
    });
}
pub fn c20(cx: &mut Ctx) {
    sel_ones(cx, "meeting anywhere, with a place of a large selection varied", cx.pick(vec![8, 9, 10, 12, 17, 36, 66], (8..=40).chain([70, 130]).collect()), cx.pick(6, 8), |w, c, b, bits, rec| {
        // The outer cells are wide; values are iterated without them.
        let b: Bits = b.iter().zip(&w.cells).map(|(&x, c)| x && c.0 == c.1).collect();
        let v: Vec<i16> = b.iter().zip(&w.cells).filter(|x| *x.0).map(|x| x.1 .0).collect();
        let (s, l) = (w.sel(&b, bits as usize), w.ivs(&b));
        for k in meetings(v.len()) {
            rec.ops(2 * v.len() as u64 + 6);
            drive_big(s.iter(), &v, k).map_err(|e| format!("iter: {}", e))?;
            drive_big(s.clone().into_iter(), &v, k).map_err(|e| format!("into_iter: {}", e))?;
        }
        for k in meetings(l.len()) {
            rec.ops(2 * l.len() as u64 + 6);
            drive_big(s.interval_iter(), &l, k).map_err(|e| format!("interval_iter: {}", e))?;
            drive_big(s.clone().into_interval_iter(), &l, k).map_err(|e| format!("into_interval_iter: {}", e))?;
        }
        if c.n <= 12 {
            ordered_big(&|| s.iter(), &v).map_err(|e| format!("iter: {}", e))?;
            ordered_big(&|| s.clone().into_iter(), &v).map_err(|e| format!("into_iter: {}", e))?;
            adaptors_big(&|| s.interval_iter(), &l).map_err(|e| format!("interval_iter: {}", e))?;
            adaptors_big(&|| s.clone().into_interval_iter(), &l).map_err(|e| format!("into_interval_iter: {}", e))?;
        }
        Ok(())
    });
}
pub fn c26(cx: &mut Ctx) {
    sel_pairs(cx, "laws differing at a place of large selections", cx.pick(vec![8, 12, 20, 34], vec![8, 9, 12, 20, 33, 36, 66]), cx.pick(vec![66], vec![132, 264]), cx.pick(4, 5), |w, x, y, how, rec| {
        let (a, b) = (w.sel(x, how), w.sel(y, how / 3));
        let (na, nb) = (a.complement(), b.complement());
        let (u, it, mi) = (a.union(&b), a.intersect(&b), a.minus(&b));
        rec.ops(20);
        let laws = [
            ("double complement", na.complement() == a), ("De Morgan (union)", u.complement() == na.intersect(&nb)),
            ("De Morgan (intersection)", it.complement() == na.union(&nb)), ("difference by complement", mi == a.intersect(&nb)),
            ("union commutes", u == b.union(&a)), ("intersection commutes", it == b.intersect(&a)),
            ("absorption", a.union(&it) == a), ("absorption (dual)", a.intersect(&u) == a),
            ("difference and intersection partition", mi.union(&it) == a), ("overlap", a.intersects(&b) != it.is_empty()),
        ];
        for (nm, ok) in laws { if !ok { return Err(format!("{} fails", nm)); } }
        let (mut p, mut q, mut r) = (a.clone(), a.clone(), a.clone());
        for iv in b.interval_iter() { p.union_in_place(iv.clone()); q.minus_in_place(iv); }
        for iv in nb.interval_iter() { r.minus_in_place(iv); }
        if p != u || q != mi || r != it { return Err("in-place operations, one interval at a time, give another result than the operation at once".into()); }
        Ok(())
    });
}
