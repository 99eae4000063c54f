//! Exhaustive exploration engine: complete enumerations of indexable case
//! spaces and breadth-first search over real objects, both deterministic,
//! parallel, replayable, and with hang detection.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub const MAX_THREADS: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

/// One failing case.
#[derive(Clone, Debug)]
pub struct Fail { pub check: String, pub index: String, pub case: String, pub msg: String }

/// What one check covered (all measured).
#[derive(Default, Debug)]
pub struct Stat {
    pub name: String, pub states: u64, pub transitions: u64, pub traces: u64,
    pub outcomes: u64, pub exhaustive: bool, pub secs: f64, pub note: String, pub slowest: u64, pub samples: Vec<String>,
}

/// Per-thread recorder handed to each case.
#[derive(Default)]
pub struct Rec { pub t: u64, pub outcomes: HashSet<u64>, pub slowest: u64, pub tid: usize }
impl Rec {
    #[inline] pub fn op(&mut self) { self.ops(1); }
    /// Counts operations about to run; also tells the hang detection that the
    /// case is progressing.
    #[inline] pub fn ops(&mut self, n: u64) { self.t += n; BEAT[self.tid].0.fetch_add(1, Relaxed); }
    #[inline] pub fn out(&mut self, m: u128) {
        if self.outcomes.len() < 1 << 16 { self.outcomes.insert(m as u64 ^ (m >> 64) as u64); }
    }
}

thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }
/// Between the operations that build or probe one large object: tells the
/// hang detection that they terminate.
#[inline] pub fn alive() {
    let t = TID.get();
    if t != usize::MAX { BEAT[t].0.fetch_add(1, Relaxed); }
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
}
/// Runs `f`, turning a panic of the code under test into an error.
pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    main_beat();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| format!("panicked: {}", p.borrow())))
}

// --- hang detection -------------------------------------------------------
#[repr(align(128))]
struct Padded(AtomicU64);
static BEAT: [Padded; MAX_THREADS] = [const { Padded(AtomicU64::new(0)) }; MAX_THREADS];
static CUR: [Padded; MAX_THREADS] = [const { Padded(AtomicU64::new(u64::MAX)) }; MAX_THREADS];
#[inline] fn beat(tid: usize, idx: u64) {
    BEAT[tid].0.fetch_add(1, Relaxed);
    CUR[tid].0.store(idx, Relaxed);
    if TRACING.load(Relaxed) { trace(idx); }
}
/// Longest time between two operations; the slowest takes milliseconds.
pub const HANG_SECS: u64 = 40;
/// Longest time the main thread may take between explorations.
pub const MAIN_HANG_SECS: u64 = 120;
/// Resident memory at which a case still running is held to be endless.
pub const MEMORY: u64 = 16 << 30;

// --- the case being run, for a process that is about to die ---------------
// (MC_TRACE: the driver's second run after a crash, on one thread.)
static TRACING: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<Option<(std::fs::File, String)>> = Mutex::new(None);
fn trace(idx: u64) {
    use std::io::{Seek, Write};
    if let Some((f, name)) = TRACE.lock().unwrap().as_mut() {
        let _ = f.rewind();
        let _ = write!(f, "{}\n{}\n", name, idx);
    }
}
pub fn trace_to(path: &str) {
    *TRACE.lock().unwrap() = Some((std::fs::File::create(path).expect("trace file"), String::new()));
    TRACING.store(true, SeqCst);
}
fn trace_check(name: &str) {
    if let Some((f, n)) = TRACE.lock().unwrap().as_mut() { *n = name.to_string(); let _ = f.set_len(0); }
}

/// Progress of the main thread (preparation of operands, replays of paths).
static MAIN: AtomicU64 = AtomicU64::new(0);
static IN_CHECK: AtomicBool = AtomicBool::new(false);
pub fn main_beat() { MAIN.fetch_add(1, Relaxed); }
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}
/// Watches the main thread between explorations.
pub fn watch_main(prop: String, build: String, dir: String) {
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let b = MAIN.load(Relaxed);
            if IN_CHECK.load(SeqCst) || b != last.0 { last = (b, Instant::now()); continue; }
            let s = last.1.elapsed().as_secs();
            if s >= MAIN_HANG_SECS || (s >= 2 && resident() > MEMORY) {
                let f = Fail { check: "preparation".into(), index: "0".into(), case: "building the operands".into(),
                    msg: format!("no answer within {} s: an operation does not terminate", s) };
                crate::report_violation(&prop, &build, &dir, &f);
                std::process::exit(1);
            }
        }
    });
}

pub struct Ctx {
    pub prop: String, pub tier: Tier, pub threads: usize, pub stats: Vec<Stat>,
    pub fails: Vec<Fail>, pub replay: Option<(String, String)>, pub known: HashSet<String>,
    pub known_hit: Vec<(Fail, String)>, pub replay_dir: String, pub build: String,
    /// When to stop (code that got much slower must still get an answer): a
    /// check started later explores for one second only, one started earlier
    /// may use half of the time left. What was left out is in the evidence.
    pub deadline: Option<Instant>,
}

/// 128-bit digest of a Debug representation.
pub fn digest<S: Debug>(s: &S, buf: &mut String) -> u128 {
    buf.clear();
    let _ = write!(buf, "{:?}", s);
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for &c in buf.as_bytes() {
        a = (a ^ c as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(7) ^ c as u64).wrapping_mul(0xD6E8FEB86659FD93);
    }
    ((a as u128) << 64) | b as u128
}
pub fn std_hash<H: std::hash::Hash>(h: &H) -> u64 {
    let mut s = std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().build_hasher();
    h.hash(&mut s);
    s.finish()
}

pub struct Space<S> {
    pub st: Vec<S>, pub mask: Vec<u128>, pub par: Vec<(u32, u32)>, pub init: Vec<String>,
    pub closed: bool, pub depth: usize,
}
impl<S> Space<S> {
    pub fn path(&self, mut i: usize) -> (usize, Vec<usize>) {
        let mut v = vec![];
        loop {
            let (p, o) = self.par[i];
            if p == u32::MAX { v.reverse(); return (o as usize, v); }
            v.push(o as usize);
            i = p as usize;
        }
    }
    pub fn len(&self) -> usize { self.st.len() }
}

impl Ctx {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// Picks by tier.
    pub fn pick<X>(&self, q: X, t: X) -> X { if self.quick() { q } else { t } }
    fn skip(&self, name: &str) -> bool { self.replay.as_ref().is_some_and(|(n, _)| n != name) }
    fn add_fails(&mut self, v: Vec<Fail>) {
        for f in v {
            let key = format!("property={} check={} case={}", self.prop, f.check, f.case);
            if self.known.contains(&key) { self.known_hit.push((f, key)); } else { self.fails.push(f); }
        }
    }

    /// Runs every case `0..n`; `states` is the number of distinct operand
    /// states the caller enumerates over.
    pub fn enumerate<D, F>(&mut self, name: &str, n: u64, states: u64, describe: D, run: F)
    where D: Fn(u64) -> String + Sync, F: Fn(u64, &mut Rec) -> R + Sync {
        if self.skip(name) { return; }
        let t0 = Instant::now();
        let until = self.deadline.map(|d| t0 + (d.saturating_duration_since(t0) / 2).max(Duration::from_secs(1)));
        let ran = AtomicU64::new(0);
        let one = |i: u64, rec: &mut Rec| -> R {
            match catch_unwind(AssertUnwindSafe(|| run(i, rec))) {
                Ok(r) => r,
                Err(_) => Err(PANIC.with(|p| format!("panicked: {}", p.borrow()))),
            }
        };
        if let Some((_, idx)) = &self.replay {
            let i: u64 = idx.parse().expect("replay index");
            let mut rec = Rec::default();
            println!("replay {}[{}]: {}", name, i, describe(i));
            match one(i, &mut rec) {
                Ok(()) => println!("  holds ({} operations)", rec.t),
                Err(m) => { println!("  FAILS: {}", m);
                    self.add_fails(vec![Fail { check: name.into(), index: idx.clone(), case: describe(i), msg: m }]); }
            }
            return;
        }
        const CAP: usize = 64;
        let next = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        let fails: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
        let total = Mutex::new(Rec::default());
        self.with_watchdog(name, &describe, |threads| std::thread::scope(|sc| {
            for tid in 0..threads {
                let (next, stop_at, fails, total, one, ran) = (&next, &stop_at, &fails, &total, &one, &ran);
                sc.spawn(move || {
                    TID.set(tid);
                    let mut rec = Rec { tid, ..Rec::default() };
                    loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= n || a > stop_at.load(SeqCst) || until.is_some_and(|u| Instant::now() > u) { break; }
                        ran.fetch_add(chunk.min(n - a), Relaxed);
                        for i in a..(a + chunk).min(n) {
                            beat(tid, i);
                            let t = Instant::now();
                            let r = one(i, &mut rec);
                            rec.slowest = rec.slowest.max(t.elapsed().as_micros() as u64);
                            if let Err(m) = r {
                                let mut f = fails.lock().unwrap();
                                f.insert(i, m);
                                if f.len() > CAP { let _ = f.pop_last(); stop_at.fetch_min(*f.last_key_value().unwrap().0, SeqCst); }
                            }
                        }
                    }
                    CUR[tid].0.store(u64::MAX, Relaxed);
                    let mut t = total.lock().unwrap();
                    t.t += rec.t; t.outcomes.extend(rec.outcomes); t.slowest = t.slowest.max(rec.slowest);
                });
            }
        }));
        let rec = total.into_inner().unwrap();
        let fails: Vec<Fail> = fails.into_inner().unwrap().into_iter()
            .map(|(i, m)| Fail { check: name.into(), index: i.to_string(), case: describe(i), msg: m }).collect();
        let samples = if n == 0 { vec![] } else { [0, n / 2, n - 1].iter().map(|&i| describe(i)).collect() };
        let ran = ran.into_inner();
        let note = if ran == n || !fails.is_empty() { String::new() } else { format!("time budget: {} of {} cases", ran, n) };
        self.stats.push(Stat { name: name.into(), states, transitions: rec.t, traces: ran, outcomes: rec.outcomes.len() as u64,
            exhaustive: ran == n, secs: t0.elapsed().as_secs_f64(), note, slowest: rec.slowest, samples });
        self.add_fails(fails);
    }

    fn with_watchdog(&self, name: &str, describe: &(dyn Fn(u64) -> String + Sync), body: impl FnOnce(usize)) {
        let threads = self.threads;
        let done = AtomicBool::new(false);
        IN_CHECK.store(true, SeqCst);
        trace_check(name);
        std::thread::scope(|sc| {
            let done = &done;
            sc.spawn(move || {
                let mut last = [(0u64, Instant::now()); MAX_THREADS];
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let limit = if resident() > MEMORY { 2 } else { HANG_SECS };
                    for tid in 0..threads {
                        let b = BEAT[tid].0.load(Relaxed);
                        let cur = CUR[tid].0.load(Relaxed);
                        if b != last[tid].0 || cur == u64::MAX { last[tid] = (b, Instant::now()); }
                        else if last[tid].1.elapsed().as_secs() >= limit {
                            let f = Fail { check: name.into(), index: cur.to_string(), case: describe(cur),
                                msg: format!("no answer within {} s: the operation does not terminate", limit) };
                            crate::report_violation(&self.prop, &self.build, &self.replay_dir, &f);
                            std::process::exit(1);
                        }
                    }
                }
            });
            body(threads);
            done.store(true, SeqCst);
        });
        main_beat();
        IN_CHECK.store(false, SeqCst);
    }

    /// Breadth-first search over real objects to a fixpoint (or `cap`
    /// states). States are deduplicated by (full Debug digest, model mask).
    /// `step` performs one operation on a clone of the real object and
    /// returns the real and the model successor. Afterwards the path of every
    /// state is replayed from its initial object and must end in that state.
    #[allow(clippy::too_many_arguments)]
    pub fn bfs<S, ST, CK>(&mut self, name: &str, inits: Vec<(String, S, u128)>, nops: usize, cap: usize,
        opname: &(dyn Fn(usize) -> String + Sync), step: ST, check: CK) -> Space<S>
    where S: Clone + Debug + Send + Sync, ST: Fn(S, usize, u128) -> (S, u128) + Sync, CK: Fn(&S, u128) -> R + Sync {
        let t0 = Instant::now();
        let mut sp = Space { st: vec![], mask: vec![], par: vec![], init: vec![], closed: true, depth: 0 };
        let mut seen: HashMap<(u128, u128), u32> = HashMap::new();
        let mut fails: Vec<Fail> = vec![];
        let mut buf = String::new();
        let mut trans = 0u64;
        let roots: Vec<(S, u128)> = inits.iter().map(|(_, s, m)| (s.clone(), *m)).collect();
        for (k, (nm, s, m)) in inits.into_iter().enumerate() {
            trans += 1;
            if let Err(e) = guard(|| check(&s, m)).and_then(|r| r) {
                fails.push(Fail { check: name.into(), index: format!("init {}", k), case: nm.clone(), msg: e });
            }
            let key = (digest(&s, &mut buf), m);
            seen.entry(key).or_insert_with(|| { sp.st.push(s); sp.mask.push(m); sp.par.push((u32::MAX, k as u32)); (sp.st.len() - 1) as u32 });
            sp.init.push(nm);
        }
        let describe_path = |sp: &Space<S>, i: usize, op: Option<usize>| {
            let (k, mut v) = sp.path(i);
            v.extend(op);
            let mut s = sp.init[k].clone();
            for o in v { let _ = write!(s, " ; {}", opname(o)); }
            s
        };
        let mut lo = 0;
        'levels: while lo < sp.st.len() && fails.is_empty() {
            let hi = sp.st.len();
            sp.depth += 1;
            // Expand lo..hi in parallel; merge in order.
            type Out<S> = Vec<(usize, u128, S, u128, Option<String>)>;
            let outs: Mutex<BTreeMap<usize, Out<S>>> = Mutex::new(BTreeMap::new());
            let next = AtomicU64::new(lo as u64);
            let (spr, seenr) = (&sp, &seen);
            let describe = |i: u64| describe_path(spr, i as usize, None) + " ; <some operation>";
            self.with_watchdog(name, &describe, |threads| std::thread::scope(|sc| {
                for tid in 0..threads {
                    let (next, outs, step, check) = (&next, &outs, &step, &check);
                    sc.spawn(move || {
                        TID.set(tid);
                        let mut buf = String::new();
                        loop {
                            let i = next.fetch_add(1, SeqCst) as usize;
                            if i >= hi { break; }
                            let mut out: Out<S> = vec![];
                            let mut local: HashSet<(u128, u128)> = HashSet::new();
                            for op in 0..nops {
                                beat(tid, i as u64);
                                let m0 = spr.mask[i];
                                match guard(|| step(spr.st[i].clone(), op, m0)) {
                                    Err(e) => out.push((op, 0, spr.st[i].clone(), m0, Some(e))),
                                    Ok((s, m)) => {
                                        let d = digest(&s, &mut buf);
                                        if seenr.contains_key(&(d, m)) || !local.insert((d, m)) { continue; }
                                        let e = guard(|| check(&s, m)).and_then(|r| r).err();
                                        out.push((op, d, s, m, e));
                                    }
                                }
                            }
                            outs.lock().unwrap().insert(i, out);
                        }
                        CUR[tid].0.store(u64::MAX, Relaxed);
                    });
                }
            }));
            trans += ((hi - lo) * nops) as u64;
            for (i, out) in outs.into_inner().unwrap() {
                for (op, d, s, m, e) in out {
                    if let Some(e) = e {
                        if fails.len() < 64 {
                            let (k, mut v) = sp.path(i);
                            v.push(op);
                            fails.push(Fail { check: name.into(), index: format!("init {} ops {:?}", k, v),
                                case: describe_path(&sp, i, Some(op)), msg: e });
                        }
                        continue;
                    }
                    if seen.contains_key(&(d, m)) { continue; }
                    if sp.st.len() >= cap { sp.closed = false; continue; }
                    seen.insert((d, m), sp.st.len() as u32);
                    sp.st.push(s); sp.mask.push(m); sp.par.push((i as u32, op as u32));
                }
            }
            lo = hi;
            if !sp.closed { break 'levels; }
        }
        // Conformance: replay the path of every state on one live object.
        let mut replayed = 0u64;
        if fails.is_empty() && (self.replay.is_none() || !self.skip(name)) {
            let mut b2 = String::new();
            for i in 0..sp.st.len() {
                let (k, v) = sp.path(i);
                let (s, m) = roots[k].clone();
                let r = guard(|| v.iter().fold((s, m), |(s, m), &o| step(s, o, m)));
                match r {
                    Ok((s, m)) => {
                        replayed += 1;
                        // An object that looks different (it may remember that the search
                        // queried it) must still pass the check.
                        if m != sp.mask[i] || digest(&s, &mut buf) != digest(&sp.st[i], &mut b2) {
                            let e = if m != sp.mask[i] { Err("another model value".to_string()) } else { guard(|| check(&s, m)).and_then(|r| r) };
                            if let Err(e) = e {
                                fails.push(Fail { check: name.into(), index: format!("init {} ops {:?}", k, v), case: describe_path(&sp, i, None),
                                    msg: format!("replaying the same history gave a different object: {} / {}: {}", buf, b2, e) });
                                break;
                            }
                        }
                    }
                    Err(e) => { fails.push(Fail { check: name.into(), index: format!("init {} ops {:?}", k, v), case: describe_path(&sp, i, None), msg: e }); break; }
                }
            }
        }
        if self.replay.is_some() {
            if !self.skip(name) { self.add_fails(fails); }
            return sp;
        }
        let distinct: HashSet<u128> = sp.mask.iter().copied().collect();
        let n = sp.len();
        let samples = [n / 3, n - 1].iter().map(|&i| describe_path(&sp, i, None)).collect();
        self.stats.push(Stat { name: name.into(), states: n as u64, transitions: trans, traces: replayed, outcomes: distinct.len() as u64,
            exhaustive: sp.closed && fails.is_empty(), secs: t0.elapsed().as_secs_f64(),
            note: format!("breadth-first to {}, {} levels, {} operations per state", if sp.closed { "fixpoint" } else { "state cap" }, sp.depth, nops), slowest: 0, samples });
        self.add_fails(fails);
        sp
    }
}
