//! C25: the optional serde support, over three data formats.
use crate::engine::*;
use crate::model::*;
use crate::raw::{self, all_raw, int_pts};
use crate::selection::{self, Sel};
use crate::tree;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum F { Json, JsonValue, Ron, Bincode }
const FORMATS: [F; 4] = [F::Json, F::JsonValue, F::Ron, F::Bincode];

fn write<X: Serialize>(f: F, x: &X) -> Result<Vec<u8>, String> {
    match f {
        F::Json => serde_json::to_vec(x).map_err(|e| format!("{:?}: not written: {}", f, e)),
        F::JsonValue => serde_json::to_value(x).map_err(|e| format!("{:?}: not written: {}", f, e)).map(|v| v.to_string().into_bytes()),
        F::Ron => ron::to_string(x).map(String::into_bytes).map_err(|e| format!("{:?}: not written: {}", f, e)),
        F::Bincode => bincode::serialize(x).map_err(|e| format!("{:?}: not written: {}", f, e)),
    }
}
fn read<X: DeserializeOwned>(f: F, b: &[u8]) -> Result<X, String> {
    let shown = || String::from_utf8_lossy(b).into_owned();
    match f {
        F::Json => serde_json::from_slice(b).map_err(|e| format!("{:?}: {} not read back: {}", f, shown(), e)),
        F::JsonValue => serde_json::from_slice::<serde_json::Value>(b).and_then(serde_json::from_value).map_err(|e| format!("{:?}: {} not read back: {}", f, shown(), e)),
        F::Ron => ron::de::from_bytes(b).map_err(|e| format!("{:?}: {} not read back: {}", f, shown(), e)),
        F::Bincode => bincode::deserialize(b).map_err(|e| format!("{:?}: {:?} not read back: {}", f, b, e)),
    }
}
/// Round trip of a value, alone and inside containers, in every format.
fn trip<X: Serialize + DeserializeOwned + PartialEq + Clone + Debug + Hash>(x: &X, rec: &mut Rec) -> Result<Vec<X>, String> {
    let mut back = vec![];
    for f in FORMATS {
        rec.ops(2);
        let b = write(f, x)?;
        let y: X = read(f, &b)?;
        if y != *x { return Err(format!("{:?}: {:?} is read back as {:?}", f, x, y)); }
        if std_hash(&y) != std_hash(x) { return Err(format!("{:?}: {:?} hashes differently when read back", f, x)); }
        if write(f, &y)? != b { return Err(format!("{:?}: {:?} is written differently after being read back", f, x)); }
        back.push(y);
        let nested = (vec![x.clone(), x.clone()], Some(x.clone()), Holder { a: 1, x: x.clone(), b: "z".into() });
        let n: (Vec<X>, Option<X>, Holder<X>) = read(f, &write(f, &nested)?)?;
        if n != nested { return Err(format!("{:?}: {:?} is read back as {:?}", f, nested, n)); }
    }
    Ok(back)
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Holder<X> { a: u8, x: X, b: String }

fn bounds<T: Clone>(pts: &[T]) -> Vec<Bound<T>> {
    std::iter::once(Bound::Infinite).chain(pts.iter().flat_map(|p| [Bound::Include(p.clone()), Bound::Exclude(p.clone())])).collect()
}

/// The interval holds what the bounds say and is in normal form: nothing here
/// relies on how the library makes an interval of raw bounds.
fn normal_form<T: V>(r: &RawInterval<T>, got: &Interval<T>, pts: &[T]) -> R {
    for p in pts { if got.contains(p) != raw::raw_holds(r, p) { return Err(format!("contains({:?}) is {}", p, got.contains(p))); } }
    let holds = |p: Option<T>| p.is_some_and(|p| raw::raw_holds(r, &p));
    match (got.lower_bound(), got.upper_bound()) {
        (None, None) => {
            if *got != Interval::empty() || !got.is_empty() { return Err("not the empty interval".into()); }
            for p in pts { if holds(Some(p.clone())) || holds(p.pred()) || holds(p.succ()) { return Err("empty, though the bounds hold a value".into()); } }
        }
        (Some(Bound::Include(l)), Some(Bound::Include(u))) if l <= u => {
            let want = if l == u { Interval::point(l.clone()) } else { Interval::closed(l.clone(), u.clone()) };
            if *got != want || std_hash(got) != std_hash(&want) { return Err(format!("not equal to {:?}", want)); }
            if !holds(Some(l.clone())) || !holds(Some(u.clone())) || holds(l.pred()) || holds(u.succ()) { return Err("its ends are not those of the values held".into()); }
        }
        _ => return Err("not in normal form".into()),
    }
    Ok(())
}

/// Bounds, markers, raw intervals and intervals over one finite type.
fn scalar<T: V + Serialize + DeserializeOwned>(cx: &mut Ctx, name: &str, pts: &[T]) {
    let bs = bounds(pts);
    let raws = all_raw(pts);
    let (nb, nr) = (bs.len() as u64, raws.len() as u64);
    cx.enumerate(&format!("bounds and markers[{}]", name), nb * 4, nb * 4, |i| format!("{:?} (form {})", bs[(i / 4) as usize], i % 4), |i, rec| {
        let b = bs[(i / 4) as usize].clone();
        match i % 4 {
            0 => trip(&b, rec).map(drop),
            1 => trip(&Tine::Lower(b), rec).map(drop),
            2 => trip(&Tine::Upper(b), rec).map(drop),
            _ => if matches!(b, Bound::Infinite) { Ok(()) } else { trip(&Tine::Point(b), rec).map(drop) },
        }
    });
    cx.enumerate(&format!("raw intervals[{}]", name), nr, nr, |i| format!("{:?}", raws[i as usize]), |i, rec| {
        let r = &raws[i as usize];
        rec.out(i as u128);
        trip(r, rec).map(drop)
    });
    cx.enumerate(&format!("intervals[{}]", name), nr, nr, |i| format!("Interval::from({:?})", raws[i as usize]), |i, rec| {
        let r = &raws[i as usize];
        let iv = Interval::from(r.clone());
        for y in trip(&iv, rec)? {
            for p in pts { if y.contains(p) != iv.contains(p) { return Err(format!("{:?} read back contains({:?}) is {}", iv, p, y.contains(p))); } }
            if (y.lower_bound(), y.upper_bound()) != (iv.lower_bound(), iv.upper_bound()) { return Err(format!("{:?} has other bounds when read back", iv)); }
        }
        Ok(())
    });
    cx.enumerate(&format!("intervals read from raw bounds[{}]", name), nr, nr, |i| format!("{:?} read as an interval", raws[i as usize]), |i, rec| {
        let r = &raws[i as usize];
        let want = Interval::from(r.clone());
        for f in FORMATS {
            rec.ops(2);
            let got: Interval<T> = read(f, &write(f, r)?)?;
            normal_form(r, &got, pts).map_err(|e| format!("{:?}: reads as {:?}, {}", f, got, e))?;
            if got != want { return Err(format!("{:?}: reads as {:?}, constructed as {:?}", f, got, want)); }
            if std_hash(&got) != std_hash(&want) { return Err(format!("{:?}: hashes unlike {:?}", f, want)); }
            for p in pts { if got.contains(p) != want.contains(p) { return Err(format!("{:?}: contains({:?}) is {}", f, p, got.contains(p))); } }
            let (s, t) = (Selection::from(got.clone()), Selection::from(want.clone()));
            if s != t { return Err(format!("{:?}: makes the selection {:?}, constructed {:?}", f, s, t)); }
            let many: Vec<Interval<T>> = read(f, &write(f, &vec![r.clone(), RawInterval::Empty, r.clone()])?)?;
            if many != [want.clone(), Interval::empty(), want.clone()] { return Err(format!("{:?}: a list reads as {:?}", f, many)); }
        }
        Ok(())
    });
}

fn ints<T: V + Serialize + DeserializeOwned>(cx: &mut Ctx, d: Dom<T>) {
    let pts = int_pts(&d);
    scalar(cx, &d.name.clone(), &pts);
}

fn selections<T: V + Serialize + DeserializeOwned>(cx: &mut Ctx, d: &Dom<T>) {
    let n = 1u64 << d.n();
    cx.enumerate(&format!("selections[{}]", d.name), n, n, |i| d.show(i as u128), |i, rec| {
        let m = i as u128;
        let all = [selection::build(d, m), selection::build_rev(d, m), selection::build_carve(d, m), selection::build_values(d, m)];
        rec.out(m);
        for s in &all {
            for y in trip(s, rec)? { selection::holds(d, &y, m)?; }
            for f in FORMATS {
                if write(f, s)? != write(f, &all[0])? { return Err(format!("{:?}: equal selections {:?} and {:?} are written differently", f, s, all[0])); }
            }
        }
        Ok(())
    });
}

/// Histories in which writing and reading back is one of the operations.
fn histories<T: V + Serialize + DeserializeOwned>(cx: &mut Ctx, d: &Dom<T>) {
    let ivs = d.ivs();
    let k = ivs.len();
    let full = d.full();
    let nops = 3 * k + 5;
    let opname = |o: usize| if o < 3 * k { format!("{}({:?})", ["union_in_place", "minus_in_place", "intersect_in_place"][o / k], ivs[o % k].0) }
        else if o == 3 * k { "complement()".into() } else { format!("written and read ({:?})", FORMATS[o - 3 * k - 1]) };
    let inits = vec![("new()".to_string(), Sel::<T>::new(), 0u128), ("full()".to_string(), Sel::full(), full)];
    cx.bfs(&format!("histories with serialization[{}]", d.name), inits, nops, 100_000, &opname, |mut s: Sel<T>, o, m| {
        if o < 3 * k {
            let (iv, x) = &ivs[o % k];
            return match o / k {
                0 => { s.union_in_place(iv.clone()); (s, m | x) }
                1 => { s.minus_in_place(iv.clone()); (s, m & !x) }
                _ => { s.intersect_in_place(iv.clone()); (s, m & x) }
            };
        }
        if o == 3 * k { return (s.complement(), full & !m); }
        let f = FORMATS[o - 3 * k - 1];
        let y: Sel<T> = write(f, &s).and_then(|b| read(f, &b)).unwrap_or_else(|e| panic!("{}", e));
        (y, m)
    }, |s, m| selection::canonical(d, s, m));
}

fn trees(cx: &mut Ctx, n: usize) {
    let line = Line { n };
    let total = 1u64 << line.regions();
    let raws = line.raws();
    cx.enumerate(&format!("trees[{} end points]", n), total, total, |i| line.show(i as u128), |i, rec| {
        let m = i as u128;
        let all: [TineTree<K>; 3] = [tree::build(&line, m), tree::build_rev(&line, m), tree::build_carve(&line, m)];
        rec.out(m);
        for (h, t) in all.iter().enumerate() {
            for y in trip(t, rec)? {
                tree::tree_holds(&line, &y, m)?;
                if n > 3 || h > 0 { continue; }
                // The tree read back goes on to behave as the original.
                for (r, x) in &raws {
                    rec.ops(3);
                    let mut u = y.clone();
                    u.union_in_place(r);
                    tree::tree_holds(&line, &u, m | x).map_err(|e| format!("read back, then union_in_place({:?}): {}", r, e))?;
                    let mut u = y.clone();
                    u.minus_in_place(r);
                    tree::tree_holds(&line, &u, m & !x).map_err(|e| format!("read back, then minus_in_place({:?}): {}", r, e))?;
                    let mut u = y.clone();
                    u.intersect_in_place(r);
                    tree::tree_holds(&line, &u, m & x).map_err(|e| format!("read back, then intersect_in_place({:?}): {}", r, e))?;
                }
            }
            for f in FORMATS {
                if write(f, t)? != write(f, &all[0])? { return Err(format!("{:?}: equal trees {:?} and {:?} are written differently", f, t, all[0])); }
            }
        }
        Ok(())
    });
}

/// Trees and selections with hundreds of intervals.
fn large(cx: &mut Ctx) {
    use crate::big::*;
    let ns = sizes(cx.pick(40, 200), !cx.quick());
    let np = PATS.len() as u64;
    let n = ns.len() as u64 * np;
    cx.enumerate("hundreds of intervals", n, n, |i| format!("shape {} of size {}", i % np, ns[(i / np) as usize]), |i, rec| {
        let size = ns[(i / np) as usize];
        let line = Line { n: size };
        let b = pattern((i % np) as usize, line.regions(), 0);
        rec.out(i as u128);
        for how in 0..2 {
            let t = crate::big::tree(&line, &b, how);
            for y in trip(&t, rec)? { tree_canon(&line, &y, &b)?; }
        }
        let w: Win<i32> = Win::new("i32", -(size as i32 / 3), size);
        let b = pattern((i % np) as usize, w.n(), 0);
        let first = w.sel(&b, 0);
        for how in 0..4 {
            let s = w.sel(&b, how);
            for y in trip(&s, rec)? { w.is(&y, &b, true)?; }
            for f in FORMATS { if write(f, &s)? != write(f, &first)? { return Err(format!("{:?}: equal selections are written differently", f)); } }
        }
        Ok(())
    });
}

pub fn c25(cx: &mut Ctx) {
    large(cx);
    scalar(cx, "values 0..6", &(0..6).map(P::<6>).collect::<Vec<_>>());
    #[cfg(feature = "thorough")]
    if !cx.quick() { scalar(cx, "values 0..24", &(0..24).map(P::<24>).collect::<Vec<_>>()); }
    ints(cx, dom_u8()); ints(cx, dom_u16()); ints(cx, dom_u32()); ints(cx, dom_u64()); ints(cx, dom_usize());
    ints(cx, dom_i8()); ints(cx, dom_i16()); ints(cx, dom_i32()); ints(cx, dom_i64()); ints(cx, dom_isize());
    for n in [1, 2, 3, cx.pick(4, 7)] { trees(cx, n); }
    selections(cx, &pdom::<1>());
    selections(cx, &pdom::<4>());
    selections(cx, &pdom::<10>());
    #[cfg(feature = "thorough")]
    if !cx.quick() { selections(cx, &pdom::<15>()); }
    histories(cx, &pdom::<1>());
    histories(cx, &pdom::<3>());
    histories(cx, &pdom::<7>());
    #[cfg(feature = "thorough")]
    if !cx.quick() { histories(cx, &pdom::<11>()); }
    histories(cx, &dom_i64());
    // Values that are not Copy and own memory.
    let mut words: Vec<String> = ["", "a", "a,b", "(a]", "Ø", "∞", "zz"].iter().map(|s| s.to_string()).collect();
    words.sort();
    let wr = string_raws(&words);
    let n = wr.len() as u64;
    cx.enumerate("raw intervals and trees over strings", n * n, n, |i| format!("{:?}, {:?}", wr[(i / n) as usize], wr[(i % n) as usize]), |i, rec| {
        let (a, b) = (&wr[(i / n) as usize], &wr[(i % n) as usize]);
        if i % n == 0 { trip(a, rec)?; }
        let t: TineTree<String> = [a.clone(), b.clone()].into_iter().collect();
        for y in trip(&t, rec)? {
            for w in &words { if y.contains(w) != (a.contains(w) || b.contains(w)) { return Err(format!("read back contains({:?}) is {}", w, y.contains(w))); } }
        }
        Ok(())
    });
}
fn string_raws(w: &[String]) -> Vec<RawInterval<String>> {
    use RawInterval::*;
    let mut v = vec![Empty, Full];
    for (i, p) in w.iter().enumerate() {
        let p = || p.clone();
        v.extend([Point(p()), UpTo(p()), UpFrom(p()), To(p()), From(p())]);
        for q in &w[i + 1..] {
            let q = || q.clone();
            v.extend([Open(p(), q()), LeftOpen(p(), q()), RightOpen(p(), q()), Closed(p(), q())]);
        }
    }
    v
}
