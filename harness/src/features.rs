//! C22: every combination of features, each of them compiled with a probe program (see /verif/probe)

use crate::analysis::log_u32;
use crate::reference::*;
use crate::regular::aimed;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::Duration;
use vcommon::*;

const NAMES: [&str; 7] = ["report_stdout", "report_stderr", "no_report", "tolerance_10_percent", "tolerance_25_percent", "no_allocator_metrics", "async"];
const STDOUT: usize = 1;
const STDERR: usize = 2;
const NO_REPORT: usize = 4;
const TOLERANCE_25: usize = 16;
const NO_METRICS: usize = 32;
const ASYNC: usize = 64;

fn names_of(mask: usize) -> String { format!("[{}]", (0..7).filter(|b| mask >> b & 1 == 1).map(|b| NAMES[b]).collect::<Vec<_>>().join(", ")) }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Query { kind: u8, n1: u32, n2: u32, u1: u64, u2: u64 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run { name: String, retries: u32, n1: u32, n2: u32, t1: u64, t2: u64, h1: u64, h2: u64, time_limit: usize, space_limit: usize }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crud { name: String, attempts: u32, warmup: u32, iterations: u32, threads: u32, costs: [u64; 4], limits: [usize; 4] }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Scenario { Verdicts(Vec<Query>), Heap(Vec<(char, u64, u64)>), Sync(Run), Async(Run), Crud(Crud) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { features: [bool; 7], scenario: Scenario }

fn name() -> impl Strategy<Value = String> { prop_oneof![12 => "[a-zA-Z][a-zA-Z ]{0,11}", 1 => "[a-zA-Zé漢][a-zA-Zé漢 ]{60,300}", 1 => ("[a-zA-Z]{1,3}", log_u32(100, 40_000)).prop_map(|(part, times)| part.repeat(times as usize))] }
fn queries() -> impl Strategy<Value = Vec<Query>> {
    prop::collection::vec((0u8..6, log_u32(2, 1 << 20), 2u32..12, log_u32(2, 1_000_000), 0usize..8, prop_oneof![2 => 0.80f64..1.25, 1 => 1.10f64..1.25, 1 => 0.75f64..0.90, 1 => 0.5f64..3.0]).prop_map(|(kind, n1, ratio, u1, class, around)| {
        let n2 = n1.saturating_mul(ratio);
        let g = if kind >= 4 { [1.0, (3.0 * n1 as f64).ln() / (n1 as f64).ln(), 3.0][class % 3] } else { predicted_growths(n1 as f64, n2 as f64)[class % 7] };
        Query { kind, n1, n2, u1: u1 as u64 + 100, u2: ((u1 as f64 + 100.0) * g * around).min(1e17) as u64 }
    }), 1..40)
}
fn run() -> impl Strategy<Value = Run> {
    (name(), 0u32..3, log_u32(2, 1 << 20), 2u32..5, (1000u64..1_000_000_000, 0usize..17, -2.4f64..2.4), (16u64..3000, 0usize..12, -2.4f64..2.4, 0u8..3), 0usize..17, 0usize..17)
        .prop_map(|(name, retries, n1, ratio, (t1, tc, tj), (h1, hc, hj, no_heap), time_limit, space_limit)| {
            let n2 = n1 * ratio;
            let t2 = (aimed(tc, t1 as f64 * 1e-9, n1 as f64, n2 as f64, tj) * 1e9).clamp(1.0, 1e16) as u64;
            let h2 = aimed(hc, h1 as f64, n1 as f64, n2 as f64, hj).clamp(1.0, (1u64 << 28) as f64) as u64;
            let (h1, h2) = if no_heap == 0 { (0, 0) } else { (h1, h2) };
            Run { name, retries, n1, n2, t1, t2, h1, h2, time_limit, space_limit: if no_heap == 1 { 16 } else { space_limit } }
        })
}
fn scenario() -> BoxedStrategy<Scenario> {
    let heap = prop::collection::vec(prop_oneof![
        3 => (prop_oneof![Just('a'), Just('z')], 1u64..100_000, 0u64..8),
        2 => (Just('r'), any::<u16>().prop_map(u64::from), 1u64..100_000),
        2 => (Just('f'), any::<u16>().prop_map(u64::from), Just(0u64)),
        2 => (prop_oneof![Just('v'), Just('b')], 0u64..5000, Just(0u64)),
        1 => (prop_oneof![9 => Just('v'), 1 => Just('t')], 1u64..5000, Just(0u64)),
    ], 1..60);
    let limit = || prop_oneof![6 => 1usize..17, 1 => Just(0usize)];
    let crud = (name(), 1u32..4, 0u32..120, 4u32..60, 1u32..4, prop::array::uniform4(0u64..1_000_000), [limit(), limit(), limit(), limit()])
        .prop_map(|(name, attempts, warmup, iterations, threads, costs, limits)| Crud { name, attempts, warmup, iterations, threads, costs, limits });
    prop_oneof![3 => queries().prop_map(Scenario::Verdicts), 3 => heap.prop_map(Scenario::Heap), 4 => run().prop_map(Scenario::Sync), 2 => run().prop_map(Scenario::Async), 2 => crud.prop_map(Scenario::Crud)].boxed()
}
fn case() -> impl Strategy<Value = Case> { (any::<[bool; 7]>(), scenario()).prop_map(|(features, scenario)| Case { features, scenario }) }

// ---- running the probe ----------------------------------------------------------------------------------------------

struct Observed { result: Vec<String>, stdout: String, stderr: String }
fn bin(mask: usize) -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").expect("VERIF_DIR")).join("target/probe/bin").join(mask.to_string()) }
/// Ok(None): that set of features doesn't compile
fn probe(mask: usize, args: &[String]) -> Result<Observed, String> {
    let bin = bin(mask);
    if !bin.exists() {
        let log = std::fs::read_to_string(bin.with_extension("failed")).unwrap_or_else(|_| panic!("the probes weren't built: {}", bin.display()));
        return Err(format!("the features {} don't compile: {log}", names_of(mask)));
    }
    let results = std::env::temp_dir().join(format!("verif-probe-{}", std::process::id()));
    let o = Command::new(&bin).arg(&results).args(args).stdin(Stdio::null()).stderr(Stdio::piped()).stdout(Stdio::piped()).output().expect("running the probe");
    let result = std::fs::read_to_string(&results);
    _ = std::fs::remove_file(&results);
    let (stdout, stderr) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    match result {
        Ok(r) if o.status.success() => Ok(Observed { result: r.lines().map(str::to_string).collect(), stdout, stderr }),
        _ => Err(format!("with the features {}, the probe ended with {} -- {stdout} -- {stderr}", names_of(mask), o.status)),
    }
}
/// replaces amounts of memory
fn without_amounts(text: &str) -> String {
    let chars: Vec<char> = text.chars().collect();
    let (mut out, mut i) = (String::new(), 0);
    while i < chars.len() {
        let mut j = i;
        if matches!(chars[j], '+' | '-') { j += 1; }
        let digits = j;
        while j < chars.len() && (chars[j].is_ascii_digit() || chars[j] == '.') { j += 1; }
        if j > digits {
            let rest: String = chars[j..chars.len().min(j + 3)].iter().collect();
            let unit = if ["KiB", "MiB", "GiB"].contains(&rest.as_str()) { 3 } else if rest.starts_with('b') { 1 } else { 0 };
            if unit > 0 { while out.ends_with(' ') { out.pop(); } out.push_str(" (heap)"); i = j + unit; } else { out.extend(&chars[i..j]); i = j; }
        } else { out.push(chars[i]); i += 1; }
    }
    out
}
fn comparable(s: &Scenario, text: &str) -> String {
    match s {
        // threads allocate memory of their own, at any time
        Scenario::Crud(_) => without_amounts(text).lines().filter(|l| !l.contains("Space Analysis")).collect::<Vec<_>>().join("\n"),
        _ => text.to_string(),
    }
}

fn check(c: &Case) -> Outcome {
    let mask = (0..7).map(|b| (c.features[b] as usize) << b).sum::<usize>();
    match check_scenario(mask, &c.scenario) {
        Err(e) => fail(e),
        Ok(None) => Outcome::Skip("edge of a band"),
        Ok(Some((nontrivial, class))) => pass_multi(nontrivial, vec![class, format!("features {mask:03}")]),
    }
}
fn check_scenario(mask: usize, s: &Scenario) -> Result<Option<(bool, String)>, String> {
    let on = |f: usize| mask & f != 0;
    let tol = if on(TOLERANCE_25) { 0.25 } else { 0.10 };
    let with = names_of(mask);
    let mut args: Vec<String> = vec![];
    match s {
        Scenario::Verdicts(queries) => {
            let expected: Vec<Option<usize>> = queries.iter().map(|q| {
                let time = q.kind % 2 == 0;
                let u = |u: u64| if time { Duration::from_nanos(u).as_secs_f64() } else { u as f64 };
                if q.kind >= 4 { resizing_verdict(u(q.u1), u(q.u2), q.n1 as f64, tol) } else { growth_verdict(u(q.u1), u(q.u2), q.n1 as f64, q.n2 as f64, tol) }
            }).collect();
            let other = |q: &Query| { let u = |x: u64| x as f64; if q.kind >= 4 { resizing_verdict(u(q.u1), u(q.u2), q.n1 as f64, 0.35 - tol) } else { growth_verdict(u(q.u1), u(q.u2), q.n1 as f64, q.n2 as f64, 0.35 - tol) } };
            args.push("verdicts".to_string());
            for q in queries { args.extend([["time", "space", "constant-time", "constant-space", "resizing-time", "resizing-space"][q.kind as usize].to_string(), q.n1.to_string(), q.n2.to_string(), q.u1.to_string(), q.u2.to_string()]); }
            let o = probe(mask, &args)?;
            assert!(o.result.len() == queries.len());
            for ((q, e), r) in queries.iter().zip(&expected).zip(&o.result) {
                let r: usize = r.parse().unwrap();
                if let Some(e) = e { ensure_r!(*e == r, "with the features {with}, the verdict of {q:?} is {:?} -- {:?} is expected, for a tolerance of {tol}", ALL[r], ALL[*e]); }
            }
            ensure_r!(o.stdout.is_empty() && o.stderr.is_empty(), "with the features {with}, analysing prints: {}{}", o.stdout, o.stderr);
            let sensitive = queries.iter().zip(&expected).any(|(q, e)| e.is_some() && other(q) != *e);
            Ok(Some((sensitive, format!("verdicts{}", if sensitive { " depending on the tolerance" } else { "" }))))
        },
        Scenario::Heap(ops) => {
            args.push("heap".to_string());
            for (k, x, y) in ops { args.extend([k.to_string(), x.to_string(), y.to_string()]); }
            let o = probe(mask, &args)?;
            let line = |i: usize| -> Vec<u64> { o.result[i].split(' ').skip(1).map(|x| x.parse().unwrap()).collect() };
            let (before, counts, bytes, level, own) = (line(0)[0], line(1), line(2), line(3), line(4));
            // the model
            let (mut blocks, mut n, mut b) = (Vec::<u64>::new(), [0u64; 4], [0u64; 5]);
            let (mut now, mut lo, mut hi) = (0i64, 0i64, 0i64);
            for (k, x, y) in ops {
                let mut moved = |d: i64| { now += d; lo = lo.min(now); hi = hi.max(now); };
                match k {
                    'a' => { n[0] += 1; b[0] += x; blocks.push(*x); moved(*x as i64); },
                    'z' => { n[2] += 1; b[2] += x; blocks.push(*x); moved(*x as i64); },
                    'r' => if !blocks.is_empty() { let i = *x as usize % blocks.len(); n[3] += 1; b[3] += blocks[i]; b[4] += y; moved(*y as i64 - blocks[i] as i64); blocks[i] = *y; },
                    'f' => if !blocks.is_empty() { let size = blocks.swap_remove(*x as usize % blocks.len()); n[1] += 1; b[1] += size; moved(-(size as i64)); },
                    _ => { let size = if *k == 'b' { 40 } else { *x }; if size > 0 { n[0] += 1; n[1] += 1; b[0] += size; b[1] += size; moved(size as i64); moved(-(size as i64)); } },
                }
            }
            let threads = ops.iter().any(|o| o.0 == 't');
            if on(NO_METRICS) {
                ensure_r!(before == 0 && level == [0, 0, 0] && counts == [0; 4] && bytes == [0; 5], "with the features {with}, the heap metrics aren't zero: {:?}", o.result);
                let expected = [n[0] + n[2], n[1], n[3]];
                ensure_r!(if threads { own.iter().zip(expected).all(|(o, e)| *o >= e) } else { own == expected }, "with the features {with}, the program's own global allocator saw {own:?} (allocations, de-allocations, re-allocations) instead of {expected:?}");
            } else if threads {
                ensure_r!(before > 0 && counts.iter().zip(n).all(|(o, e)| *o >= e) && bytes.iter().zip(b).all(|(o, e)| *o >= e), "with the features {with}, some heap operations weren't seen: {:?} for {n:?} operations of {b:?} bytes", o.result);
            } else {
                ensure_r!(before > 0, "with the features {with}, the heap level is 0");
                ensure_r!(counts == n && bytes == b, "with the features {with}, {counts:?} operations of {bytes:?} bytes are seen instead of {n:?} of {b:?}");
                let expected = [now, lo, hi].map(|x| (before as i64 + x) as u64);
                ensure_r!(level == expected, "with the features {with}, the heap level, low & high are {level:?} instead of {expected:?}");
            }
            ensure_r!(o.stdout.is_empty() && o.stderr.is_empty(), "with the features {with}, measuring prints: {}{}", o.stdout, o.stderr);
            Ok(Some((true, "heap".to_string())))
        },
        Scenario::Sync(_) | Scenario::Async(_) | Scenario::Crud(_) => {
            let is_async = matches!(s, Scenario::Async(_));
            if is_async {
                let o = probe(mask, &["async?".to_string()])?;
                ensure_r!(o.result == [on(ASYNC).to_string()], "with the features {with}, whether async support is present: {:?}", o.result);
                if !on(ASYNC) { return Ok(Some((true, "no async".to_string()))); }
            }
            let mut tolerance_matters = false;
            let name;
            let outcome = match s {
                Scenario::Crud(c) => {
                    name = &c.name;
                    args.extend(["crud".to_string(), c.name.clone()]);
                    args.extend([c.attempts, c.warmup, c.iterations, c.threads].map(|x| x.to_string()));
                    args.extend(c.costs.map(|x| x.to_string()));
                    args.extend(c.limits.map(|x| x.to_string()));
                    // each element costs the same
                    if c.limits.iter().all(|l| *l >= 1) { "accepted" } else { "refused time" }
                },
                Scenario::Sync(r) | Scenario::Async(r) => {
                    name = &r.name;
                    args.extend([if is_async { "async" } else { "sync" }.to_string(), r.name.clone(), r.retries.to_string(), r.n1.to_string(), r.t1.to_string(), r.h1.to_string(), r.n2.to_string(), r.t2.to_string(), r.h2.to_string(), r.time_limit.to_string(), r.space_limit.to_string()]);
                    let secs = |ns: u64| Duration::from_nanos(ns).as_secs_f64();
                    let verdicts = |tol: f64| (growth_verdict(secs(r.t1), secs(r.t2), r.n1 as f64, r.n2 as f64, tol), growth_verdict(r.h1 as f64, r.h2 as f64, r.n1 as f64, r.n2 as f64, tol));
                    let ((t, sp), other) = (verdicts(tol), verdicts(0.35 - tol));
                    tolerance_matters = (t, sp) != other;
                    let (Some(t), Some(sp)) = (t, sp) else { return Ok(None) };
                    let sp = if on(NO_METRICS) { 1 } else { sp };
                    if sp > r.space_limit { "refused space" } else if t > r.time_limit { "refused time" } else { "accepted" }
                },
                _ => unreachable!(),
            };
            let o = probe(mask, &args)?;
            let observed = o.result[0].to_lowercase();
            let ok = match outcome { "accepted" => observed == "accepted", "refused time" => observed.starts_with("refused") && observed.contains("time"), _ => observed.starts_with("refused") && observed.contains("space") };
            ensure_r!(ok, "with the features {with}, the outcome is '{}' -- '{outcome}' is expected", o.result[0]);

            // what is reported is the same, whatever the features
            let reference_mask = STDOUT | mask & (TOLERANCE_25 | NO_METRICS) | if is_async { ASYNC } else { 0 };
            let reference = probe(reference_mask, &args)?;
            ensure_r!(reference.stdout.contains(name.as_str()), "with the features {}, there is no report about '{name}': {}", names_of(reference_mask), reference.stdout);
            let text = comparable(s, &reference.stdout);
            let (out, err) = (comparable(s, &o.stdout), comparable(s, &o.stderr));
            let (to_out, to_err) = if on(NO_REPORT) { (false, false) } else if on(STDERR) { (false, true) } else { (on(STDOUT), false) };
            for (what, text, due, observed) in [("standard output", &text, to_out, out), ("standard error", &text, to_err, err)] {
                if due { ensure_r!(observed == *text, "with the features {with}, standard {what} should have the report\n{text}\n-- but has\n{observed}"); }
                else { ensure_r!(observed.is_empty(), "with the features {with}, nothing should be sent to the {what} -- but this was:\n{observed}"); }
            }
            // the tolerance & the metrics only change the verdicts & figures which depend on them
            let plain = STDOUT | if is_async { ASYNC } else { 0 };
            let no_heap = match s { Scenario::Sync(r) | Scenario::Async(r) => r.h1 == 0 && r.h2 == 0, _ => true };
            if reference_mask != plain && !tolerance_matters && (no_heap || !on(NO_METRICS)) {
                let base = comparable(s, &probe(plain, &args)?.stdout);
                let (a, b) = if on(NO_METRICS) { (without_amounts(&base), without_amounts(&text)) } else { (base, text) };
                ensure_r!(a == b, "with the features {}, the report is\n{b}\n-- instead of\n{a}", names_of(reference_mask));
            }
            Ok(Some((true, format!("{} {outcome}", if is_async { "async" } else if matches!(s, Scenario::Crud(_)) { "crud" } else { "sync" }))))
        },
    }
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C22", rule: "a set of features (uniform over the 128, each of them compiled with the probe program) and a scenario: verdicts around both tolerances, heap operations, sync / async / CRUD runs; nontrivial: all, but verdicts which are the same for both tolerances",
        assumptions: vec!["the compiler and dependencies installed", "heap usage of threads, in reports of multi-threaded runs, isn't compared"],
        subs: vec![Sub::new("features", 24_000, 1_000_000, case(), check)] },
] }
