//! C07-C11: the interval tree on the dense line.
use crate::engine::*;
use crate::model::*;
use normalize_interval::tine_tree::TineTree;
use std::fmt::Debug;

pub type Tree = TineTree<K>;

/// Points held, by membership, cross-checked with the listed intervals.
pub fn tree_holds(line: &Line, t: &Tree, m: u128) -> R {
    let got = line.mask(|p| t.contains(p));
    if got != m { return Err(format!("holds {}, expected {}", line.show(got), line.show(m))); }
    Ok(())
}
fn listed(line: &Line, t: &Tree) -> Result<Vec<Raw>, String> {
    let v: Vec<Raw> = t.interval_iter().take(line.regions() + 1).collect();
    if v.len() > line.regions() { return Err("interval_iter() does not end".into()); }
    Ok(v)
}
fn tree_lists(line: &Line, t: &Tree, m: u128) -> R {
    tree_holds(line, t, m)?;
    let got = listed(line, t)?;
    let cover = got.iter().fold(0, |a, r| a | line.raw_mask(r));
    if cover != m { return Err(format!("lists {:?}, expected the points of {}", got, line.show(m))); }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Alpha { InPlace, All }

/// Breadth-first search over real trees.
fn space(cx: &mut Ctx, n: usize, al: Alpha, cap: usize, check: &(dyn Fn(&Line, &Tree, u128) -> R + Sync)) -> Space<Tree> {
    let line = Line { n };
    let rs = line.raws();
    let k = rs.len();
    let mut inits: Vec<(String, Tree, u128)> = vec![("new()".into(), Tree::new(), 0), ("default()".into(), Tree::default(), 0)];
    for (r, m) in &rs {
        inits.push((format!("from_raw_interval({:?})", r), Tree::from_raw_interval(r.clone()), *m));
        inits.push((format!("from({:?})", r), r.clone().into(), *m));
    }
    let singles: Vec<Tree> = rs.iter().map(|(r, _)| Tree::from_raw_interval(r.clone())).collect();
    let nops = match al { Alpha::InPlace => 3 * k, Alpha::All => 8 * k + 2 };
    let nm = ["union_in_place", "minus_in_place", "intersect_in_place", "union", "minus", "intersect", "collect its intervals followed by ", "collect its intervals in reverse after "];
    let opname = |o: usize| if o >= 8 * k { ["complement()", "From its intervals"][o - 8 * k].to_string() } else { format!("{}({:?})", nm[o / k], rs[o % k].0) };
    let full = line.full();
    let l2 = &line;
    cx.bfs(&format!("histories[{} end points, {}]", n, if al == Alpha::All { "all operations" } else { "in-place operations" }), inits, nops, cap, &opname, |mut t: Tree, o, m| {
        if o == 8 * k { return (t.complement(), full & !m); }
        let some = l2.regions() + 1;
        if o == 8 * k + 1 { return (Tree::from(t.into_iter().take(some).collect::<Vec<Raw>>().into_iter()), m); }
        let (r, x) = &rs[o % k];
        match o / k {
            0 => { t.union_in_place(r); (t, m | x) }
            1 => { t.minus_in_place(r); (t, m & !x) }
            2 => { t.intersect_in_place(r); (t, m & x) }
            3 => (t.union(&singles[o % k]), m | x),
            4 => (t.minus(&singles[o % k]), m & !x),
            5 => (t.intersect(&singles[o % k]), m & x),
            6 => (t.interval_iter().take(some).chain(std::iter::once(r.clone())).collect(), m | x),
            _ => (std::iter::once(r.clone()).chain(t.interval_iter().rev().take(some)).collect(), m | x),
        }
    }, |t, m| check(l2, t, m))
}
/// Parameter `n` for the comb families.
pub const WIDE: usize = 40;
/// Masks with many intervals: each of several periodic patterns, cut to
/// every window of a coarse grid, over `n` end points.
pub fn wide_masks(regions: usize, step: usize) -> Vec<u128> {
    let full = span(0, regions - 1);
    let pats: [&[u8]; 9] = [&[0, 1], &[1, 0], &[0, 1, 1, 1], &[1, 1, 0, 1], &[0, 0, 1, 1], &[0, 1, 1, 0], &[0, 1, 0, 0, 1, 1, 1, 0], &[1, 1, 1, 0, 1, 0], &[0, 0, 0, 1, 0, 1, 1, 1, 0, 1]];
    let mut v = vec![0, full];
    for p in pats {
        let base = (0..regions).filter(|r| p[r % p.len()] == 1).fold(0u128, |m, r| m | 1 << r);
        for a in (0..regions).step_by(step) {
            for b in (a..regions).step_by(step) {
                v.push(base & span(a, b));
                v.push(base | (full & !span(a, b)));
            }
            v.push(base & span(a, regions - 1));
        }
    }
    v.sort_by_key(|m| (m.count_ones(), *m));
    v.dedup();
    v
}
/// Builds a tree for a mask by in-place unions of its parts.
pub fn build(line: &Line, m: u128) -> Tree {
    let mut t = Tree::new();
    for p in line.parts(m) { t.union_in_place(&p); }
    t
}
pub fn build_rev(line: &Line, m: u128) -> Tree {
    line.parts(m).into_iter().rev().collect()
}
/// From the full line by removing the gaps.
pub fn build_carve(line: &Line, m: u128) -> Tree {
    let mut t = Tree::from_raw_interval(normalize_interval::raw_interval::RawInterval::Full);
    for p in line.parts(line.full() & !m) { t.minus_in_place(&p); }
    t
}

pub fn c07(cx: &mut Ctx) {
    for n in cx.pick(vec![1, 2, 3, 7], vec![1, 2, 3, 4, 5, 6, 8]) {
        space(cx, n, Alpha::InPlace, cx.pick(40_000, 200_000), &|l, t, m| tree_lists(l, t, m));
    }
    // One operation on trees with many intervals.
    let line = Line { n: WIDE };
    let ms = wide_masks(line.regions(), cx.pick(9, 5));
    let rs = line.raws();
    let rs: Vec<_> = rs.into_iter().filter(|(_, m)| { let a = m.trailing_zeros() as usize; let b = 128 - m.leading_zeros() as usize; *m == 0 || cx.pick(a % 5 < 2 && b % 7 < 3, true) }).collect();
    let k = rs.len() as u64;
    cx.enumerate("one operation on many intervals", ms.len() as u64 * k * 3, ms.len() as u64,
        |i| format!("{} {} {:?}", line.show(ms[(i / (3 * k)) as usize]), ["union", "minus", "intersect"][(i / k % 3) as usize], rs[(i % k) as usize].0), |i, rec| {
        let m = ms[(i / (3 * k)) as usize];
        let (r, x) = &rs[(i % k) as usize];
        let mut t = if i % 2 == 0 { build(&line, m) } else { build_carve(&line, m) };
        rec.op();
        let want = match i / k % 3 { 0 => { t.union_in_place(r); m | x } 1 => { t.minus_in_place(r); m & !x } _ => { t.intersect_in_place(r); m & x } };
        rec.out(want);
        let got = listed(&line, &t)?;
        let cover = got.iter().fold(0, |a, r| a | line.raw_mask(r));
        if cover != want { return Err(format!("lists {:?}, expected the points of {}", got, line.show(want))); }
        Ok(())
    });
}

fn binary(line: &Line, a: &Tree, ma: u128, b: &Tree, mb: u128, rec: &mut Rec) -> R {
    for (op, t, want) in [("union", a.union(b), ma | mb), ("intersect", a.intersect(b), ma & mb), ("minus", a.minus(b), ma & !mb)] {
        rec.op();
        rec.out(want);
        if let Err(e) = tree_exact(line, &t, want) { return Err(format!("{}: {}", op, e)); }
    }
    Ok(())
}
/// The listing covers exactly the mask (cheaper than probing every region;
/// membership is compared with the listing in `tree_lists`).
fn tree_exact(line: &Line, t: &Tree, want: u128) -> R {
    let got = listed(line, t)?;
    if got == line.parts(want) { return Ok(()); }
    let cover = got.iter().fold(0, |a, r| a | line.raw_mask(r));
    if cover != want { return Err(format!("lists {:?}, expected the points of {}", got, line.show(want))); }
    Ok(())
}
pub fn c08(cx: &mut Ctx) {
    for n in cx.pick(vec![1, 2, 3, 5], vec![1, 2, 3, 4, 5, 6]) {
        let line = Line { n };
        let sp = space(cx, n, Alpha::All, cx.pick(40_000, 200_000), &|l, t, m| tree_lists(l, t, m));
        let k = sp.len() as u64;
        cx.enumerate(&format!("complement[{} end points]", n), k, k, |i| line.show(sp.mask[i as usize]), |i, rec| {
            let m = sp.mask[i as usize];
            let t = sp.st[i as usize].complement();
            rec.op();
            rec.out(m);
            tree_lists(&line, &t, line.full() & !m)
        });
        cx.enumerate(&format!("all pairs[{} end points]", n), k * k, k, |i| format!("{} op {}", line.show(sp.mask[(i / k) as usize]), line.show(sp.mask[(i % k) as usize])), |i, rec| {
            let (x, y) = ((i / k) as usize, (i % k) as usize);
            binary(&line, &sp.st[x], sp.mask[x], &sp.st[y], sp.mask[y], rec)
        });
    }
    let line = Line { n: WIDE };
    let ms = wide_masks(line.regions(), cx.pick(12, 6));
    let ts: Vec<Tree> = ms.iter().enumerate().map(|(i, &m)| guard(|| match i % 3 { 0 => build(&line, m), 1 => build_rev(&line, m), _ => build_carve(&line, m) }).unwrap_or_default()).collect();
    let k = ms.len() as u64;
    cx.enumerate("pairs with many intervals", k * k, k, |i| format!("{} op {}", line.show(ms[(i / k) as usize]), line.show(ms[(i % k) as usize])), |i, rec| {
        let (x, y) = ((i / k) as usize, (i % k) as usize);
        if y == 0 { rec.op(); tree_lists(&line, &ts[x].complement(), line.full() & !ms[x])?; }
        binary(&line, &ts[x], ms[x], &ts[y], ms[y], rec)
    });
}

fn canonical(line: &Line, t: &Tree, m: u128) -> R {
    let got = listed(line, t)?;
    if got != line.parts(m) { return Err(format!("lists {:?}, expected {:?}", got, line.parts(m))); }
    for (how, o) in [("collected in order", build(line, m)), ("collected in reverse", build_rev(line, m)), ("carved from the full line", build_carve(line, m))] {
        if *t != o { return Err(format!("is not equal to the same points {}: {:?} / {:?}", how, t, o)); }
        if std_hash(t) != std_hash(&o) { return Err(format!("hashes differently from the same points {}", how)); }
    }
    let mut c = build(line, line.full() & !m);
    c.clone_from(t);
    if c != *t || t.clone() != *t { return Err(format!("is not equal to its clones {:?}, {:?}", c, t.clone())); }
    Ok(())
}
pub fn c09(cx: &mut Ctx) {
    for n in cx.pick(vec![1, 2, 3, 5], vec![1, 2, 3, 4, 5, 7]) {
        let line = Line { n };
        let sp = space(cx, n, Alpha::All, cx.pick(20_000, 100_000), &canonical);
        if n <= 5 {
            let k = sp.len() as u64;
            cx.enumerate(&format!("equality of all pairs[{} end points]", n), k * k, k, |i| format!("{} == {}", line.show(sp.mask[(i / k) as usize]), line.show(sp.mask[(i % k) as usize])), |i, rec| {
                let (x, y) = ((i / k) as usize, (i % k) as usize);
                rec.op();
                rec.out(sp.mask[x] ^ sp.mask[y]);
                let (a, b) = (&sp.st[x], &sp.st[y]);
                let same = sp.mask[x] == sp.mask[y];
                if (a == b) != same || (a != b) == same { return Err(format!("equality is {}, inequality {}", a == b, a != b)); }
                if a == b && std_hash(a) != std_hash(b) { return Err("equal trees hash differently".into()); }
                Ok(())
            });
        }
        // Binary results are canonical too.
        if n <= 4 || (!cx.quick() && n == 5) {
            let k = sp.len() as u64;
            cx.enumerate(&format!("results of all pairs[{} end points]", n), k * k, k, |i| format!("{} op {}", line.show(sp.mask[(i / k) as usize]), line.show(sp.mask[(i % k) as usize])), |i, rec| {
                let (x, y) = ((i / k) as usize, (i % k) as usize);
                let (a, b, ma, mb) = (&sp.st[x], &sp.st[y], sp.mask[x], sp.mask[y]);
                for (op, t, want) in [("union", a.union(b), ma | mb), ("intersect", a.intersect(b), ma & mb), ("minus", a.minus(b), ma & !mb)] {
                    rec.op();
                    rec.out(want);
                    canonical(&line, &t, want).map_err(|e| format!("{} {}", op, e))?;
                }
                Ok(())
            });
        }
    }
    let line = Line { n: WIDE };
    let ms = wide_masks(line.regions(), cx.pick(9, 4));
    cx.enumerate("many intervals", ms.len() as u64, ms.len() as u64, |i| line.show(ms[i as usize]), |i, rec| {
        let m = ms[i as usize];
        let full = line.full();
        rec.ops(5);
        rec.out(m);
        canonical(&line, &build(&line, m), m)?;
        canonical(&line, &build(&line, m).complement(), full & !m)?;
        let odd = ms[(i as usize * 7 + 3) % ms.len()];
        canonical(&line, &build(&line, m).union(&build(&line, odd)), m | odd)?;
        canonical(&line, &build(&line, m).minus(&build(&line, odd)), m & !odd)?;
        canonical(&line, &build(&line, m).intersect(&build(&line, odd)), m & odd)
    });
}

fn queries(line: &Line, t: &Tree, m: u128) -> R {
    tree_holds(line, t, m)?;
    if t.is_empty() != (m == 0) { return Err(format!("is_empty() is {}", t.is_empty())); }
    if t.is_full() != (m == line.full()) { return Err(format!("is_full() is {}", t.is_full())); }
    let h = line.one(hull(m));
    if t.lower_bound() != h.lower_bound() { return Err(format!("lower_bound() is {:?}, expected {:?}", t.lower_bound(), h.lower_bound())); }
    if t.upper_bound() != h.upper_bound() { return Err(format!("upper_bound() is {:?}, expected {:?}", t.upper_bound(), h.upper_bound())); }
    if t.enclose() != h { return Err(format!("enclose() is {:?}, expected {:?}", t.enclose(), h)); }
    let c = line.one(line.close(m));
    if t.closure() != c { return Err(format!("closure() is {:?}, expected {:?}", t.closure(), c)); }
    Ok(())
}
pub fn c10(cx: &mut Ctx) {
    for n in cx.pick(vec![1, 2, 3, 5], vec![1, 2, 3, 4, 5, 7]) {
        space(cx, n, Alpha::All, cx.pick(20_000, 100_000), &|l, t, m| queries(l, t, m));
    }
    let line = Line { n: WIDE };
    let ms = wide_masks(line.regions(), cx.pick(4, 2));
    cx.enumerate("many intervals", ms.len() as u64, ms.len() as u64, |i| line.show(ms[i as usize]), |i, rec| {
        let m = ms[i as usize];
        rec.ops(3);
        rec.out(m);
        queries(&line, &build(&line, m), m)?;
        queries(&line, &build_carve(&line, m), m)?;
        queries(&line, &build(&line, m).complement(), line.full() & !m)
    });
}

/// Drives an iterator with one front/back schedule (bit set = back) and
/// compares every returned item with the ideal deque.
pub fn drive<I, X>(mut it: I, want: &[X], sched: u64, len: usize) -> R
where I: DoubleEndedIterator<Item = X>, X: PartialEq + Debug {
    let (mut f, mut b) = (0, want.len());
    for s in 0..len {
        let back = sched >> s & 1 == 1;
        let (got, exp) = if back { (it.next_back(), if f < b { b -= 1; Some(&want[b]) } else { None }) }
            else { (it.next(), if f < b { f += 1; Some(&want[f - 1]) } else { None }) };
        if got.as_ref() != exp { return Err(format!("call {} ({}) of schedule {} returned {:?}, expected {:?}", s + 1, if back { "next_back" } else { "next" }, show_sched(sched, len), got, exp)); }
    }
    Ok(())
}
pub fn show_sched(s: u64, len: usize) -> String { (0..len).map(|i| if s >> i & 1 == 1 { 'B' } else { 'F' }).collect() }
/// After a front/back prefix, the provided adaptors see the remaining items.
pub fn adaptors<I, X>(mk: &dyn Fn() -> I, want: &[X], sched: u64, len: usize, rec: &mut Rec) -> R
where I: DoubleEndedIterator<Item = X>, X: PartialEq + Debug + Clone {
    let backs = (sched & ((1u64 << len) - 1)).count_ones() as usize;
    let rest: &[X] = if len >= want.len() { &[] } else { &want[len - backs..want.len() - backs] };
    let pre = || { let mut it = mk(); for s in 0..len { if sched >> s & 1 == 1 { it.next_back(); } else { it.next(); } } it };
    let bound = want.len() + 2;
    let err = |what: &str, got: String| Err(format!("after {}, {} gives {}, expected the items {:?}", show_sched(sched, len), what, got, rest));
    rec.ops(6);
    let v: Vec<X> = pre().take(bound).collect();
    if v != rest { return err("collect()", format!("{:?}", v)); }
    let mut v: Vec<X> = pre().rev().take(bound).collect();
    v.reverse();
    if v != rest { return err("rev()", format!("{:?}", v)); }
    let c = pre().count();
    if c != rest.len() { return err("count()", c.to_string()); }
    let l = pre().last();
    if l.as_ref() != rest.last() { return err("last()", format!("{:?}", l)); }
    let h = pre().size_hint();
    if h.0 > rest.len() || h.1.is_some_and(|u| u < rest.len()) { return err("size_hint()", format!("{:?}", h)); }
    let v = pre().fold(vec![], |mut v, x| { v.push(x); v });
    if v != rest { return err("fold()", format!("{:?}", v)); }
    let mut v = pre().rfold(vec![], |mut v, x| { v.push(x); v });
    v.reverse();
    if v != rest { return err("rfold()", format!("{:?}", v)); }
    consuming(&pre, rest).or_else(|e: String| err("a provided method", e))?;
    for k in [255, 256, 65_535, 65_536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX] {
        if k < rest.len() { continue; }
        rec.ops(2);
        let (mut it, mut jt) = (pre(), pre());
        let (g, h) = (it.nth(k), jt.nth_back(k));
        if g.is_some() || h.is_some() || it.next().is_some() || jt.next_back().is_some() { return err(&format!("nth({}) or nth_back({})", k, k), format!("{:?}, {:?}", g, h)); }
    }
    for k in 0..=rest.len() {
        rec.ops(2);
        let mut it = pre();
        let g = it.nth(k);
        if g.as_ref() != rest.get(k) { return err(&format!("nth({})", k), format!("{:?}", g)); }
        let g = it.next();
        if g.as_ref() != rest.get(k + 1) { return err(&format!("nth({}), next()", k), format!("{:?}", g)); }
        let mut it = pre();
        let g = it.nth_back(k);
        let e = if k < rest.len() { rest.get(rest.len() - 1 - k) } else { None };
        if g.as_ref() != e { return err(&format!("nth_back({})", k), format!("{:?}", g)); }
    }
    Ok(())
}
/// The same for items in ascending order: methods that compare items.
pub fn ordered<I, X>(mk: &dyn Fn() -> I, want: &[X], sched: u64, len: usize, rec: &mut Rec) -> R
where I: DoubleEndedIterator<Item = X>, X: Ord + Debug + Clone {
    adaptors(mk, want, sched, len, rec)?;
    let backs = (sched & ((1u64 << len) - 1)).count_ones() as usize;
    let rest: &[X] = if len >= want.len() { &[] } else { &want[len - backs..want.len() - backs] };
    rec.ops(8);
    comparing(&|| { let mut it = mk(); for s in 0..len { if sched >> s & 1 == 1 { it.next_back(); } else { it.next(); } } it }, rest)
        .map_err(|e| format!("after {}, {}, expected the items {:?}", show_sched(sched, len), e, rest))
}
pub fn comparing<I, X>(pre: &dyn Fn() -> I, rest: &[X]) -> R
where I: DoubleEndedIterator<Item = X>, X: Ord + Debug + Clone {
    for (what, g, w) in [
        ("min()", pre().min(), rest.first()), ("max()", pre().max(), rest.last()),
        ("min_by_key()", pre().min_by_key(|x| std::cmp::Reverse(x.clone())), rest.last()), ("max_by_key()", pre().max_by_key(|x| std::cmp::Reverse(x.clone())), rest.first()),
        ("find_map()", pre().find_map(|x| if Some(&x) == rest.last() { Some(x) } else { None }), rest.last()),
    ] {
        if g.as_ref() != w { return Err(format!("{} gives {:?}", what, g)); }
    }
    let v = || rest.iter().cloned();
    if !pre().is_sorted() || !pre().eq(v()) || pre().ne(v()) || pre().cmp(v()) != std::cmp::Ordering::Equal || pre().lt(v()) || !pre().le(v()) {
        return Err("is_sorted() or a comparison with the same items is wrong".into());
    }
    Ok(())
}
/// Searching and consuming methods an iterator may override.
pub fn consuming<I, X>(pre: &dyn Fn() -> I, rest: &[X]) -> R
where I: DoubleEndedIterator<Item = X>, X: PartialEq + Debug + Clone {
    let mut v = vec![];
    pre().for_each(|x| v.push(x));
    if v != rest { return Err(format!("for_each() {:?}", v)); }
    let (l, r): (Vec<X>, Vec<X>) = pre().partition(|x| Some(x) == rest.first());
    if l.len() != rest.len().min(1) || r.len() + l.len() != rest.len() { return Err(format!("partition() {:?}, {:?}", l, r)); }
    let g = pre().reduce(|_, x| x);
    if g.as_ref() != rest.last() { return Err(format!("reduce() {:?}", g)); }
    let g = pre().max_by(|x, y| rest.iter().position(|a| a == x).cmp(&rest.iter().position(|a| a == y)));
    if g.as_ref() != rest.last() { return Err(format!("max_by() {:?}", g)); }
    let g = pre().min_by(|x, y| rest.iter().position(|a| a == x).cmp(&rest.iter().position(|a| a == y)));
    if g.as_ref() != rest.first() { return Err(format!("min_by() {:?}", g)); }
    for k in [0, 1, rest.len() / 2, rest.len().saturating_sub(1), rest.len()] {
        let (mut it, e) = (pre(), rest.get(k));
        let g = it.find(|x| Some(x) == e);
        let n = it.next();
        if g.as_ref() != e || n.as_ref() != rest.get(k + 1) { return Err(format!("find() of item {} gives {:?}, then {:?}", k, g, n)); }
        let mut it = pre();
        let g = it.position(|x| Some(&x) == e);
        if g != e.map(|_| k) { return Err(format!("position() of item {} gives {:?}", k, g)); }
        let mut it = pre();
        let g = it.rfind(|x| Some(x) == e);
        let n = it.next_back();
        if g.as_ref() != e || n.as_ref() != if e.is_some() && k > 0 { rest.get(k - 1) } else { None } { return Err(format!("rfind() of item {} gives {:?}, then {:?}", k, g, n)); }
        let (mut it, mut jt) = (pre(), pre());
        if it.any(|x| Some(&x) == e) != e.is_some() || jt.all(|x| Some(&x) != e) == e.is_some() { return Err(format!("any(), all() of item {}", k)); }
        if it.next().as_ref() != rest.get(k + 1) || jt.next().as_ref() != rest.get(k + 1) { return Err(format!("next() after any() or all() of item {}", k)); }
    }
    for k in 1..=3 {
        let v: Vec<X> = pre().step_by(k).take(rest.len() + 2).collect();
        if !v.iter().eq(rest.iter().step_by(k)) { return Err(format!("step_by({}) {:?}", k, v)); }
        let v: Vec<X> = pre().skip(k).take(rest.len() + 2).collect();
        if !v.iter().eq(rest.iter().skip(k)) { return Err(format!("skip({}) {:?}", k, v)); }
        let v: Vec<X> = pre().by_ref().rev().skip(k).take(rest.len() + 2).collect();
        if !v.iter().eq(rest.iter().rev().skip(k)) { return Err(format!("rev(), skip({}) {:?}", k, v)); }
    }
    Ok(())
}
/// Every sequence of `len` calls out of next, next_back, nth and nth_back with
/// small arguments, against the ideal deque.
pub fn skipping<I, X>(mk: &dyn Fn() -> I, want: &[X], len: u32, rec: &mut Rec) -> R
where I: DoubleEndedIterator<Item = X>, X: PartialEq + Debug {
    const NAMES: [&str; 8] = ["next()", "next_back()", "nth(1)", "nth_back(1)", "nth(2)", "nth_back(2)", "nth(0)", "nth_back(0)"];
    for code in 0..8u64.pow(len) {
        rec.ops(len as u64);
        let (mut it, mut f, mut b) = (mk(), 0, want.len());
        for j in 0..len {
            let c = (code >> (3 * j) & 7) as usize;
            let skip = [0, 0, 1, 1, 2, 2, 0, 0][c];
            let got = match c { 0 => it.next(), 1 => it.next_back(), _ if c % 2 == 0 => it.nth(skip), _ => it.nth_back(skip) };
            let exp = if b - f <= skip { f = b; None }
                else if c % 2 == 0 { f += skip + 1; Some(&want[f - 1]) }
                else { b -= skip + 1; Some(&want[b]) };
            if got.as_ref() != exp {
                let calls: Vec<&str> = (0..=j).map(|i| NAMES[(code >> (3 * i) & 7) as usize]).collect();
                return Err(format!("the last of the calls {} returned {:?}, expected {:?}", calls.join(", "), got, exp));
            }
            let h = it.size_hint();
            if h.0 > b - f || h.1.is_some_and(|u| u < b - f) { return Err(format!("size_hint() is {:?} with {} items left", h, b - f)); }
        }
    }
    Ok(())
}
/// Schedules with at most `sw` direction changes, as (bits, length).
pub fn few_switches(len: usize, sw: usize) -> Vec<u64> {
    fn go(len: usize, at: usize, bits: u64, cur: u64, sw: usize, out: &mut Vec<u64>) {
        // Continue to the end without switching.
        let fill = if cur == 1 { (span(at, len - 1)) as u64 } else { 0 };
        out.push(bits | fill);
        if sw == 0 { return; }
        for p in at + 1..len {
            let b = bits | if cur == 1 { span(at, p - 1) as u64 } else { 0 };
            go(len, p, b, 1 - cur, sw - 1, out);
        }
    }
    let mut v = vec![];
    go(len, 0, 0, 0, sw, &mut v);
    go(len, 0, 0, 1, sw, &mut v);
    v.push((0..len).filter(|i| i % 2 == 0).fold(0, |m, i| m | 1 << i));
    v.push((0..len).filter(|i| i % 3 == 0).fold(0, |m, i| m | 1 << i));
    v.sort();
    v.dedup();
    v
}
pub fn c11(cx: &mut Ctx) {
    for n in cx.pick(vec![1, 2, 3, 5], vec![1, 2, 3, 4, 5, 6, 7]) {
        let line = Line { n };
        let sp = space(cx, n, Alpha::All, cx.pick(20_000, 100_000), &|_, _, _| Ok(()));
        let k = sp.len() as u64;
        let parts: Vec<Vec<Raw>> = sp.mask.iter().map(|&m| line.parts(m)).collect();
        let total = std::sync::atomic::AtomicU64::new(0);
        cx.enumerate(&format!("all front/back schedules[{} end points]", n), k, k, |i| line.show(sp.mask[i as usize]), |i, rec| {
            let (t, want) = (&sp.st[i as usize], &parts[i as usize]);
            let len = want.len() + 2;
            rec.out(sp.mask[i as usize]);
            for s in 0..1u64 << len {
                rec.ops(2 * len as u64);
                drive(t.interval_iter(), want, s, len).map_err(|e| format!("interval_iter: {}", e))?;
                drive(t.clone().into_iter(), want, s, len).map_err(|e| format!("into_iter: {}", e))?;
            }
            total.fetch_add(2 << len, std::sync::atomic::Ordering::Relaxed);
            if n <= 3 {
                skipping(&|| t.interval_iter(), want, 4, rec).map_err(|e| format!("interval_iter: {}", e))?;
                skipping(&|| t.clone().into_iter(), want, 4, rec).map_err(|e| format!("into_iter: {}", e))?;
            }
            if n <= 4 {
                for l in 0..=want.len() { for s in 0..1u64 << l {
                    adaptors(&|| t.interval_iter(), want, s, l, rec).map_err(|e| format!("interval_iter: {}", e))?;
                    adaptors(&|| t.clone().into_iter(), want, s, l, rec).map_err(|e| format!("into_iter: {}", e))?;
                } }
            }
            Ok(())
        });
        if let Some(st) = cx.stats.last_mut() { st.traces = total.into_inner(); st.note = "every schedule of next/next_back of length (intervals + 2), both iterators".into(); }
    }
    let line = Line { n: 20 };
    let ms = wide_masks(line.regions(), cx.pick(6, 3));
    cx.enumerate("many intervals, schedules with up to 2 turns", ms.len() as u64, ms.len() as u64, |i| line.show(ms[i as usize]), |i, rec| {
        let m = ms[i as usize];
        let t = build(&line, m);
        let want = line.parts(m);
        let len = want.len() + 2;
        rec.out(m);
        for s in few_switches(len, 2) {
            rec.ops(2 * len as u64);
            drive(t.interval_iter(), &want, s, len).map_err(|e| format!("interval_iter: {}", e))?;
            drive(t.clone().into_iter(), &want, s, len).map_err(|e| format!("into_iter: {}", e))?;
        }
        Ok(())
    });
}
