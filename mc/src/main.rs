//! mc: exhaustive checks of the normalize_interval crate. See DESIGN.md.
#![allow(dead_code, unused_imports)]
mod big;
mod engine;
mod inset;
mod interval;
mod misc;
mod model;
mod raw;
mod selection;
#[cfg(feature = "serde")]
mod ser;
mod tree;
mod types;
mod vast;
mod work;

use engine::*;
use std::collections::HashSet;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Writes the replay file of a failing case and prints the VIOLATION line.
pub fn report_violation(prop: &str, build: &str, dir: &str, f: &Fail) {
    static SEQ: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let k = SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{}-{}.txt", dir, prop, build, k);
    let body = format!(
        "property: {}\nbuild: {}\ntier: {}\ncheck: {}\nindex: {}\ncase: {}\nproblem: {}\n\nReplay (in /verif): ./check.sh replay {}\n",
        prop, build, if cfg!(feature = "thorough") { "thorough" } else { "quick" }, f.check, f.index, f.case, f.msg, path);
    let _ = std::fs::write(&path, body);
    println!("VIOLATION property={} replay={}", prop, path);
    println!("  [{}] {} case {}: {}", build, f.check, f.case, f.msg);
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: mc <property> <quick|thorough> <build> [check index]"); std::process::exit(2); }
    let (prop, build) = (a[1].clone(), a[3].clone());
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    if tier == Tier::Thorough && !cfg!(feature = "thorough") { eprintln!("not built with the feature thorough"); std::process::exit(2); }
    let replay = if a.len() >= 6 { Some((a[4].clone(), a[5].clone())) } else { None };
    let known: HashSet<String> = std::env::var("MC_KNOWN").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default()
        .lines().filter(|l| l.starts_with("property=")).map(|l| l.trim_end().to_string()).collect();
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(1, MAX_THREADS);
    let mut cx = Ctx { prop: prop.clone(), tier, threads, stats: vec![], fails: vec![], replay, known, known_hit: vec![],
        replay_dir: std::env::var("MC_REPLAYS").unwrap_or("evidence/replays".into()), build: build.clone(),
        deadline: std::env::var("MC_BUDGET").ok().and_then(|b| b.parse().ok()).map(|b| std::time::Instant::now() + std::time::Duration::from_secs(b)) };
    if let Ok(t) = std::env::var("MC_TRACE") { trace_to(&t); cx.threads = 1; }
    watch_main(prop.clone(), build.clone(), cx.replay_dir.clone());
    let outcome = guard(|| match prop.as_str() {
        #[cfg(any(feature = "c01", feature = "all"))]
        "C01" => { raw::c01(&mut cx); types::raws(&mut cx) }
        #[cfg(any(feature = "c02", feature = "all"))]
        "C02" => { raw::c02(&mut cx); types::raws(&mut cx) }
        #[cfg(any(feature = "c03", feature = "all"))]
        "C03" => { raw::c03(&mut cx); types::ends(&mut cx) }
        #[cfg(any(feature = "c04", feature = "all"))]
        "C04" => raw::c04(&mut cx),
        #[cfg(any(feature = "c05", feature = "all"))]
        "C05" => { raw::c05(&mut cx); big::c05(&mut cx) }
        #[cfg(any(feature = "c06", feature = "all"))]
        "C06" => raw::c06(&mut cx),
        #[cfg(any(feature = "c07", feature = "all"))]
        "C07" => { tree::c07(&mut cx); big::c07(&mut cx); inset::c07(&mut cx); types::dense(&mut cx); vast::trees(&mut cx) }
        #[cfg(any(feature = "c08", feature = "all"))]
        "C08" => { tree::c08(&mut cx); big::c08(&mut cx); inset::c08(&mut cx); types::dense(&mut cx); vast::trees(&mut cx) }
        #[cfg(any(feature = "c09", feature = "all"))]
        "C09" => { tree::c09(&mut cx); big::c09(&mut cx); inset::c09(&mut cx); types::dense(&mut cx); vast::trees(&mut cx) }
        #[cfg(any(feature = "c10", feature = "all"))]
        "C10" => { tree::c10(&mut cx); big::c10(&mut cx); inset::c10(&mut cx); types::dense(&mut cx); vast::trees(&mut cx) }
        #[cfg(any(feature = "c11", feature = "all"))]
        "C11" => { tree::c11(&mut cx); big::c11(&mut cx); inset::c11(&mut cx); types::dense(&mut cx); vast::trees(&mut cx) }
        #[cfg(any(feature = "c12", feature = "all"))]
        "C12" => interval::c12(&mut cx),
        #[cfg(any(feature = "c13", feature = "all"))]
        "C13" => interval::c13(&mut cx),
        #[cfg(any(feature = "c14", feature = "all"))]
        "C14" => interval::c14(&mut cx),
        #[cfg(any(feature = "c15", feature = "all"))]
        "C15" => { interval::c15(&mut cx); big::c15(&mut cx) }
        #[cfg(any(feature = "c16", feature = "all"))]
        "C16" => { selection::c16(&mut cx); big::c16(&mut cx); inset::c16(&mut cx); vast::selections(&mut cx) }
        #[cfg(any(feature = "c17", feature = "all"))]
        "C17" => { selection::c17(&mut cx); big::c17(&mut cx); inset::c17(&mut cx); vast::selections(&mut cx) }
        #[cfg(any(feature = "c18", feature = "all"))]
        "C18" => { selection::c18(&mut cx); big::c18(&mut cx); inset::c18(&mut cx); vast::selections(&mut cx) }
        #[cfg(any(feature = "c19", feature = "all"))]
        "C19" => { selection::c19(&mut cx); big::c19(&mut cx); inset::c19(&mut cx); vast::selections(&mut cx) }
        #[cfg(any(feature = "c20", feature = "all"))]
        "C20" => { selection::c20(&mut cx); big::c20(&mut cx); inset::c20(&mut cx); vast::selections(&mut cx) }
        #[cfg(any(feature = "c21", feature = "all"))]
        "C21" => { selection::c21(&mut cx); big::c21(&mut cx); inset::c21(&mut cx); vast::selections(&mut cx); vast::trees(&mut cx) }
        #[cfg(any(feature = "c22", feature = "all"))]
        "C22" => misc::c22(&mut cx),
        #[cfg(any(feature = "c23", feature = "all"))]
        "C23" => { misc::c23(&mut cx); types::merge(&mut cx) }
        #[cfg(any(feature = "c24", feature = "all"))]
        "C24" => { misc::c24(&mut cx); types::ends(&mut cx) }
        #[cfg(feature = "serde")]
        "C25" => ser::c25(&mut cx),
        #[cfg(any(feature = "c26", feature = "all"))]
        "C26" => { selection::c26(&mut cx); big::c26(&mut cx); inset::c26(&mut cx); vast::selections(&mut cx) }
        #[cfg(any(feature = "c27", feature = "all"))]
        "C27" => work::c27(&mut cx),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2); }
    });
    if let Err(msg) = outcome {
        cx.fails.push(Fail { check: "preparation".into(), index: "0".into(), case: "building the operands".into(), msg });
    }
    let mut seen = HashSet::new();
    for (_, key) in &cx.known_hit { if seen.insert(key.clone()) { println!("KNOWN-FINDING: {}", key); } }
    let mut shown: HashSet<String> = HashSet::new();
    let mut n = 0;
    for f in &cx.fails {
        // The first failing case of each check is the minimal one.
        if shown.insert(f.check.clone()) && n < 6 { report_violation(&prop, &build, &cx.replay_dir, f); n += 1; }
    }
    let mut j = String::from("{\"checks\":[");
    for (i, s) in cx.stats.iter().enumerate() {
        if i > 0 { j.push(','); }
        let _ = write!(j, "{{\"name\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"exhaustive\":{},\"secs\":{:.3},\"slowest_case_ms\":{:.3},\"note\":{},\"samples\":[{}]}}",
            esc(&s.name), s.states, s.transitions, s.traces, s.outcomes, s.exhaustive, s.secs, s.slowest as f64 / 1000.0, esc(&s.note),
            s.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    }
    let _ = write!(j, "],\"violations\":{},\"known\":{}}}", cx.fails.len(), seen.len());
    println!("RESULT {}", j);
    std::process::exit(if cx.fails.is_empty() { 0 } else { 1 });
}
