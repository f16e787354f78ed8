//! C12 .. C15 (& the CRUD parts of C19, C20 & C21): the CRUD runner, in the controlled world of [crate::sim]

use crate::reference::*;
use crate::regular::{aimed, run_charge, charge_case, ChargeCase};
use crate::report::names;
use crate::sim::*;
use big_o_test::low_level_analysis::types::*;
use big_o_test::runners::crud::{analyse_crud_algorithms, test_crud_algorithms};
use big_o_test::{BigOAlgorithmComplexity as C, ALLOC};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Duration;
use vcommon::*;

pub const OPS: [&str; 4] = ["Create", "Read", "Update", "Delete"];
const RESET: u8 = 4;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Config { pub n: [u32; 4], pub threads: [u32; 4], pub warmup: u32 }
impl Config {
    pub fn runs(&self, op: usize) -> bool { self.n[op] > 0 && self.threads[op] > 0 }
    fn effective(&self, op: usize) -> u32 { if self.runs(op) { self.n[op] } else { 0 } }
    fn warmup_n(&self, op: usize) -> u32 { (self.effective(op) as u64 * self.warmup as u64 / 100) as u32 }
}

// ---- log of calls ---------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct Call { op: u8, elem: u32, thread: u32, start: u32, end: u32, resets: u32 }
pub struct Calls { seq: AtomicU32, resets: AtomicU32, calls: Mutex<Vec<Call>>, limit: usize }

static THREADS: AtomicU32 = AtomicU32::new(0);
thread_local! { static THREAD: Cell<u32> = const { Cell::new(0) }; }
fn thread_no() -> u32 {
    THREAD.with(|t| { if t.get() == 0 { t.set(THREADS.fetch_add(1, SeqCst) + 1); } t.get() })
}
impl Calls {
    pub fn new(limit: usize) -> Calls { Calls { seq: AtomicU32::new(0), resets: AtomicU32::new(0), calls: Mutex::new(Vec::with_capacity(limit)), limit } }
    fn lock(&self) -> std::sync::MutexGuard<'_, Vec<Call>> { self.calls.lock().unwrap_or_else(|e| e.into_inner()) }
    pub fn begin(&self, op: u8, elem: u32) -> usize {
        let thread = thread_no();
        let mut calls = self.lock();
        let n = calls.len();
        if n >= self.limit { drop(calls); panic!("RUNAWAY: the user functions are being called endlessly"); }
        calls.push(Call { op, elem, thread, start: self.seq.fetch_add(1, SeqCst), end: u32::MAX, resets: self.resets.load(SeqCst) });
        n
    }
    pub fn end(&self, i: usize) {
        let mut calls = self.lock();
        calls[i].end = self.seq.fetch_add(1, SeqCst);
        if calls[i].op == RESET { self.resets.fetch_add(1, SeqCst); }
    }
    pub fn resets(&self) -> u32 { self.resets.load(SeqCst) }
    pub fn all(&self) -> Vec<Call> { self.lock().clone() }
}

// ---- running --------------------------------------------------------------------------------------------------------

/// what is told by an analysis
pub struct Facts { pub name: String, pub time: [Duration; 2], pub space: [BigOSpacePassMeasurements; 2], pub sizes: Vec<u32>, pub time_verdict: C, pub space_verdict: C, pub text: String,
                   pub more: Option<[(Duration, BigOSpacePassMeasurements); 2]> }
fn resizing_facts(a: BigOAlgorithmAnalysis<SetResizingIteratorAlgorithmMeasurements>) -> Facts {
    let text = a.to_string();
    let m = a.algorithm_measurements;
    Facts { name: m.measurement_name.to_string(), time: [m.time_measurements.pass_1_measurements, m.time_measurements.pass_2_measurements], space: [m.space_measurements.pass_1_measurements, m.space_measurements.pass_2_measurements],
            sizes: vec![m.passes_info.delta_set_size], time_verdict: a.time_complexity, space_verdict: a.space_complexity, text, more: None }
}
fn constant_facts(a: BigOAlgorithmAnalysis<ConstantSetIteratorAlgorithmMeasurements>) -> Facts {
    let text = a.to_string();
    let m = a.algorithm_measurements;
    Facts { name: m.measurement_name.to_string(), time: [m.time_measurements.pass_1_measurements, m.time_measurements.pass_2_measurements], space: [m.space_measurements.pass_1_measurements, m.space_measurements.pass_2_measurements],
            sizes: vec![m.passes_info.pass_1_set_size, m.passes_info.pass_2_set_size, m.passes_info.repetitions], time_verdict: a.time_complexity, space_verdict: a.space_complexity, text,
            more: Some([(m.pass1_measurements.time_measurements, m.pass1_measurements.space_measurements), (m.pass2_measurements.time_measurements, m.pass2_measurements.space_measurements)]) }
}
pub struct Analysed { pub facts: [Option<Facts>; 4], pub report: String }

pub fn analyse(name: &str, c: &Config, reset: &(dyn Fn(u32) + Sync), op: &(dyn Fn(u8, u32) + Sync)) -> Analysed {
    let (cr, re, up, de, report) = analyse_crud_algorithms(name, |n| { reset(n); n },
        |e| { op(0, e); e }, |e| { op(1, e); e }, |e| { op(2, e); e }, |e| { op(3, e); e },
        c.warmup, c.n[0], c.n[1], c.n[2], c.n[3], c.threads[0], c.threads[1], c.threads[2], c.threads[3]);
    Analysed { facts: [cr.map(resizing_facts), re.map(constant_facts), up.map(constant_facts), de.map(resizing_facts)], report }
}
pub fn test(c: &Config, attempts: u32, limits: &[(usize, usize); 4], reset: &(dyn Fn(u32) + Sync), op: &(dyn Fn(u8, u32) + Sync)) {
    let l = limits.map(|(t, s)| (ALL[t], ALL[s]));
    test_crud_algorithms(test_name(c.n[0] as u64 * 31 + c.n[1] as u64 * 7 + attempts as u64), attempts, |n| { reset(n); n },
        |e| { op(0, e); e }, l[0].0, l[0].1, |e| { op(1, e); e }, l[1].0, l[1].1, |e| { op(2, e); e }, l[2].0, l[2].1, |e| { op(3, e); e }, l[3].0, l[3].1,
        c.warmup, c.n[0], c.n[1], c.n[2], c.n[3], c.threads[0], c.threads[1], c.threads[2], c.threads[3])
}

fn logged(c: &Config) -> Result<(Vec<Call>, Analysed), String> {
    let total: usize = (0..4).map(|o| c.effective(o) as usize * 3).sum::<usize>() + 16;
    let calls = Calls::new(total * 2);
    let mut spin = 0u32;
    for o in 0..4 { spin = spin.wrapping_mul(31).wrapping_add(c.n[o] * 7 + c.threads[o]); }
    let world = World::enter(1000);
    let r = catch(|| analyse(test_name(spin as u64), c,
        &|n| { let i = calls.begin(RESET, n); calls.end(i) },
        &|op, e| {
            let i = calls.begin(op, e);
            // some calls are slower than the others
            if (e ^ spin) % 7 == 0 { for _ in 0..(spin % 50) { std::hint::spin_loop(); } if spin % 3 == 0 { std::thread::yield_now(); } }
            // and some need a lot of stack (as the standard threads have)
            if spin % 32 == 5 && e % 16 == 3 { std::hint::black_box(deep(1024)); }
            calls.end(i)
        }));
    drop(world);
    r.map(|a| (calls.all(), a)).map_err(|e| format!("unexpected failure: {e}"))
}

// ---- C12 ------------------------------------------------------------------------------------------------------------

fn count() -> BoxedStrategy<u32> { prop_oneof![1 => Just(0u32), 6 => 1u32..9, 6 => 1u32..70, 2 => 1u32..400, 1 => 400u32..2500].boxed() }
fn thread_count(zero: bool) -> BoxedStrategy<u32> {
    let lo = if zero { 0 } else { 1 };
    prop_oneof![8 => lo..5u32, 3 => 1u32..13, 1 => 13u32..33].boxed()
}
fn warmup() -> BoxedStrategy<u32> { prop_oneof![2 => Just(0u32), 1 => Just(100u32), 4 => 0u32..101].boxed() }
pub fn config() -> BoxedStrategy<Config> {
    ((count(), count(), count(), count()), (thread_count(true), thread_count(true), thread_count(true), thread_count(true)), warmup())
        .prop_map(|(n, t, warmup)| Config { n: [n.0, n.1, n.2, n.3], threads: [t.0, t.1, t.2, t.3], warmup }).boxed()
}

/// a single operation with many elements and/or many threads
fn wide() -> BoxedStrategy<Config> {
    (0usize..4, prop_oneof![3 => 33u32..3_000, 2 => 2_500u32..30_000, 1 => 30_000u32..150_000], prop_oneof![1 => 1u32..33, 2 => 33u32..150, 1 => 150u32..400], prop_oneof![3 => Just(0u32), 1 => 1u32..101])
        .prop_map(|(op, n, threads, warmup)| { let mut c = Config { n: [0; 4], threads: [1; 4], warmup }; c.n[op] = n; c.threads[op] = threads; c }).boxed()
}

fn check_pass_calls(c: &Config) -> Outcome {
    let (calls, _) = match logged(c) { Ok(x) => x, Err(e) => return fail(e) };
    let resets = calls.iter().filter(|c| c.op == RESET).count();
    if resets != (c.warmup > 0) as usize { return Outcome::Skip("no single reset between warm-up and passes (see C13)"); }
    // (op, pass) -> calls: pass 0 is the warm-up
    let mut passes: BTreeMap<(usize, usize), Vec<&Call>> = BTreeMap::new();
    for o in 0..4 { for p in 0..3 { passes.insert((o, p), vec![]); } }
    for call in calls.iter().filter(|c| c.op != RESET) {
        let o = call.op as usize;
        let pass = if c.warmup > 0 && call.resets == 0 { 0 } else if call.elem < c.effective(o) { 1 } else { 2 };
        passes.get_mut(&(o, pass)).unwrap().push(call);
    }
    let mut intervals: Vec<(u32, u32, String)> = calls.iter().filter(|c| c.op == RESET).map(|c| (c.start, c.end, "reset".to_string())).collect();
    let mut classes = vec![];
    for ((o, p), calls) in &passes {
        let n = c.effective(*o);
        let range = match p { 0 => 0..c.warmup_n(*o), 1 => 0..n, _ => n..n * 2 };
        let what = || format!("{} of {} ({} iterations on {} threads)", ["the warm-up", "the pass over the lower half", "the pass over the upper half"][*p], OPS[*o], range.len(), c.threads[*o]);
        let mut elems: Vec<u32> = calls.iter().map(|c| c.elem).collect();
        elems.sort();
        if elems.len() != range.len() || elems.iter().copied().ne(range.clone()) {
            let missing: Vec<u32> = range.clone().filter(|e| elems.binary_search(e).is_err()).take(5).collect();
            let extra: Vec<u32> = elems.iter().copied().filter(|e| !range.contains(e)).take(5).collect();
            return fail(format!("{}: the operation wasn't called exactly once per element: {} calls; missing: {missing:?}.., outside of the range: {extra:?}..", what(), elems.len()));
        }
        if elems.is_empty() { continue; }
        let mut by_thread: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for call in calls { by_thread.entry(call.thread).or_default().push(call.elem); }
        for (_, mut elems) in by_thread.iter().map(|(t, e)| (t, e.clone())) {
            elems.sort();
            ensure!((elems[elems.len() - 1] - elems[0]) as usize == elems.len() - 1, "{}: a thread covered the elements {elems:?}, which aren't a contiguous run", what());
        }
        let t = c.threads[*o] as usize;
        ensure!(by_thread.len() <= t, "{}: {} threads were used", what(), by_thread.len());
        ensure!(range.len() < t * t || by_thread.len() == t, "{}: only {} threads got elements", what(), by_thread.len());
        for call in calls { ensure!(call.end != u32::MAX, "{}: a call is still running after the analysis ended", what()); }
        intervals.push((calls.iter().map(|c| c.start).min().unwrap(), calls.iter().map(|c| c.end).max().unwrap(), what()));
        if range.len() % t != 0 { classes.push("not-a-multiple".to_string()); }
        if range.len() < t { classes.push("fewer-than-threads".to_string()); }
        if t > 1 { classes.push("multi-threaded".to_string()); }
        if t > 12 { classes.push("many-threads".to_string()); }
        if *p == 0 { classes.push("warm-up".to_string()); }
    }
    intervals.sort();
    for w in intervals.windows(2) { ensure!(w[0].1 < w[1].0, "{} was still running when {} began", w[0].2, w[1].2); }
    classes.sort();
    classes.dedup();
    pass_multi(classes.iter().any(|c| c == "multi-threaded"), classes)
}

// ---- C13 ------------------------------------------------------------------------------------------------------------

fn check_protocol(c: &Config) -> Outcome {
    let (mut calls, analysed) = match logged(c) { Ok(x) => x, Err(e) => return fail(e) };
    // (op, range)
    let mut stages: Vec<(u8, std::ops::Range<u32>, &str)> = vec![];
    if c.warmup > 0 {
        for o in 0..4 { stages.push((o as u8, 0..c.warmup_n(o), "warm-up")); }
        let w = c.warmup_n(0);
        stages.push((RESET, w..w + 1, "reset"));
    }
    for p in 0..2 { for o in 0..3 { let n = c.effective(o); stages.push((o as u8, n * p..n * (p + 1), ["first pass", "second pass"][p as usize])); } }
    let n = c.effective(3);
    stages.push((3, n..n * 2, "second pass"));
    stages.push((3, 0..n, "first pass"));
    calls.sort_by_key(|c| c.start);
    let mut at = 0;
    for (op, range, what) in stages {
        let name = OPS.get(op as usize).unwrap_or(&"reset");
        let part = &calls[at.min(calls.len())..(at + range.len()).min(calls.len())];
        let mut elems: Vec<u32> = part.iter().map(|c| c.elem).collect();
        elems.sort();
        if part.iter().any(|c| c.op != op) || elems.iter().copied().ne(range.clone()) {
            let seen: Vec<(&str, u32)> = part.iter().take(12).map(|c| (*OPS.get(c.op as usize).unwrap_or(&"reset"), c.elem)).collect();
            return fail(format!("{what} of {name} was due on {range:?} after {at} calls, but the next calls are {seen:?}.."));
        }
        at += range.len();
    }
    ensure!(at == calls.len(), "{} calls more than the protocol calls for: {:?}", calls.len() - at, calls[at..].iter().take(12).map(|c| (*OPS.get(c.op as usize).unwrap_or(&"reset"), c.elem)).collect::<Vec<_>>());
    for o in 0..4 { ensure!(analysed.facts[o].is_some() == c.runs(o), "{}: {} iterations, {} threads, but the analysis is {}", OPS[o], c.n[o], c.threads[o], if c.runs(o) { "missing" } else { "present" }); }
    let off = (0..4).filter(|o| !c.runs(*o)).count();
    pass_multi(off < 4, vec![format!("absent-operations-{off}"), if c.warmup == 0 { "no warm-up" } else if c.warmup_n(0) == 0 { "warm-up of nothing" } else { "warm-up" }.to_string()])
}

/// big counts, where nothing can be logged: calls are counted in blocks of 2^16 elements
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge { op: usize, n: u32, warmup: u32, threads: u32 }
fn check_huge(h: &Huge) -> Outcome {
    const SHIFT: u32 = 16;
    let blocks = ((h.n as u64 * 2) >> SHIFT) as usize + 2;
    let counts: [Vec<AtomicU32>; 2] = [0, 1].map(|_| (0..blocks).map(|_| AtomicU32::new(0)).collect());
    let other = AtomicU32::new(0);
    let out_of_range = AtomicU32::new(0);
    let resets = Mutex::new(Vec::with_capacity(8));
    let stage = AtomicU32::new(if h.warmup > 0 { 0 } else { 1 });
    let mut c = Config { n: [0; 4], threads: [1; 4], warmup: h.warmup };
    c.n[h.op] = h.n;
    c.threads[h.op] = h.threads;
    let world = World::enter(0);
    let r = catch(|| analyse("sut", &c, &|n| { resets.lock().unwrap().push(n); stage.store(1, SeqCst); },
        &|op, e| {
            if op as usize != h.op { other.fetch_add(1, Relaxed); return; }
            match counts[stage.load(Relaxed) as usize].get((e >> SHIFT) as usize) { Some(c) => { c.fetch_add(1, Relaxed); }, None => { out_of_range.fetch_add(1, Relaxed); } }
        }));
    drop(world);
    let a = match r { Ok(a) => a, Err(e) => return fail(format!("unexpected failure: {e}")) };
    let w = (h.n as u64 * h.warmup as u64 / 100) as u32;
    for (stage, total) in [(0, w as u64), (1, h.n as u64 * 2)] {
        for (b, count) in counts[stage].iter().enumerate() {
            let expected = total.saturating_sub((b as u64) << SHIFT).min(1 << SHIFT) as u32;
            let count = count.load(SeqCst);
            ensure!(count == expected, "{}: {count} calls on the elements {}.. of the {}, where {expected} were due", OPS[h.op], (b as u64) << SHIFT, ["warm-up", "passes"][stage]);
        }
    }
    ensure!(other.load(SeqCst) == 0 && out_of_range.load(SeqCst) == 0, "calls for other operations: {other:?}; out of any range: {out_of_range:?}");
    let resets = resets.lock().unwrap().clone();
    let expected_resets: Vec<u32> = if h.warmup > 0 { vec![if h.op == 0 { w } else { 0 }] } else { vec![] };
    ensure!(resets == expected_resets, "reset was called with {resets:?} instead of {expected_resets:?}");
    for o in 0..4 { ensure!(a.facts[o].is_some() == (o == h.op), "presence of the {} analysis", OPS[o]); }
    pass(true, OPS[h.op])
}
fn huge() -> BoxedStrategy<Huge> { (0usize..4, (1u32 << 25) + (1 << 23)..80_000_000, 20u32..101, 2u32..9).prop_map(|(op, n, warmup, threads)| Huge { op, n, warmup: warmup.max((u32::MAX / n) + 1).min(100), threads }).boxed() }

// ---- C14 ------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PassCost { ns: u64, extra: (u32, u64), heap_at: u32, heap: Vec<Step> }
/// costs[op][0: warm-up, 1: lower half, 2: upper half]; reset: (ns, heap)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CostCase { config: Config, start_up: u64, baseline: Vec<u32>, costs: Vec<Vec<PassCost>>, reset: (u64, Vec<Step>) }

/// noise caused by the threads themselves & by report strings
fn noise(threads: u32) -> i64 { threads as i64 * 2048 + 4096 }
const UNIT: u32 = 256 * 1024;
fn heap_program() -> BoxedStrategy<Vec<Step>> {
    let size = || (1u32..80).prop_map(|k| k * UNIT);
    prop::collection::vec(prop_oneof![3 => size().prop_map(Step::Keep), 3 => any::<u8>().prop_map(Step::Free), 3 => size().prop_map(Step::Spike)], 0..5).boxed()
}
fn ns() -> BoxedStrategy<u64> { prop_oneof![1 => Just(0u64), 4 => 1u64..100_000, 3 => 1u64..100_000_000, 1 => 1u64..100_000_000_000].boxed() }
fn pass_cost() -> BoxedStrategy<PassCost> {
    (ns(), any::<u32>(), ns(), any::<u32>(), heap_program()).prop_map(|(ns, at, extra, heap_at, heap)| PassCost { ns, extra: (at, extra), heap_at, heap }).boxed()
}
pub fn cost_case() -> BoxedStrategy<CostCase> {
    let n = || prop_oneof![10 => Just(0u32), 100 => 2u32..40, 10 => Just(1u32), 4 => 40u32..700];
    let t = || prop_oneof![10 => Just(0u32), 120 => 1u32..5, 10 => 5u32..9, 4 => 9u32..34];
    ((n(), n(), n(), n()), (t(), t(), t(), t()), warmup(), ns(), prop::collection::vec((1u32..40).prop_map(|k| k * UNIT), 0..4), prop::collection::vec(prop::collection::vec(pass_cost(), 3..=3), 4..=4), (ns(), heap_program()))
        .prop_map(|(n, t, warmup, start_up, baseline, costs, reset)| CostCase { config: Config { n: [n.0, n.1, n.2, n.3], threads: [t.0, t.1, t.2, t.3], warmup }, start_up, baseline, costs, reset }).boxed()
}
/// what each pass should be charged with: [op][0: lower, 1: upper] -> (total time over all threads, heap, level at start)
type Due = [[(u64, Charged, i64); 2]; 4];

pub fn run_costs(c: &CostCase) -> Result<(Due, Analysed, String), String> {
    let cfg = &c.config;
    let stage = AtomicU32::new(if cfg.warmup > 0 { 0 } else { 1 });
    let world = World::enter(c.start_up);
    for b in &c.baseline { keep(*b as usize); }
    let absolute = ALLOC.save_point().metrics.current_used_memory as i64 - kept_bytes() as i64;
    let runaway = AtomicU64::new(0);
    let r = catch(|| analyse("sut", cfg,
        &|_| { charge(c.reset.0); run_steps(&c.reset.1); stage.store(1, SeqCst); },
        &|op, e| {
            if runaway.fetch_add(1, SeqCst) > 100_000 { panic!("RUNAWAY"); }
            let n = cfg.n[op as usize];
            let (pass, start, len) = if stage.load(SeqCst) == 0 { (0, 0, cfg.warmup_n(op as usize)) } else if e < n { (1, 0, n) } else { (2, n, n) };
            let cost = &c.costs[op as usize][pass];
            charge(cost.ns);
            if len > 0 && e == start + cost.extra.0 % len { charge(cost.extra.1); }
            if len > 0 && e == start + cost.heap_at % len { run_steps(&cost.heap); }
        }));
    let output = captured();
    drop(world);
    let a = r.map_err(|e| format!("unexpected failure: {e}"))?;
    // model
    let mut model = Model { live: c.baseline.iter().map(|b| *b as u64).collect() };
    let mut due: Due = Default::default();
    let mut run = |model: &mut Model, op: usize, pass: usize| {
        let len = if pass == 0 { cfg.warmup_n(op) } else { cfg.effective(op) };
        if len == 0 { return; }
        let cost = &c.costs[op][pass];
        let level = model.level();
        let charged = model.run(&cost.heap);
        if pass > 0 { due[op][pass - 1] = (cost.ns * len as u64 + cost.extra.1, charged, absolute + level); }
    };
    if cfg.warmup > 0 {
        for op in 0..4 { run(&mut model, op, 0); }
        model.run(&c.reset.1);
    }
    for pass in 1..3 { for op in 0..3 { run(&mut model, op, pass); } }
    run(&mut model, 3, 2);
    run(&mut model, 3, 1);
    Ok((due, a, output))
}
pub fn check_time(reported: Duration, total_ns: u64, len: u32, threads: u32, what: &str) -> Result<(), String> {
    let close = |expected: f64| (reported.as_secs_f64() - expected).abs() <= 2e-9 + expected * 1e-9;
    let average = total_ns as f64 * 1e-9 / threads as f64;
    // with few elements, some threads may have none: whether they count as recruited isn't specified
    let others = len < threads * threads && (1..=threads).any(|t| close(total_ns as f64 * 1e-9 / t as f64));
    ensure_r!(close(average) || others, "{what}: time {reported:?} where {total_ns}ns were spent by {threads} threads");
    Ok(())
}
fn check_space(s: &BigOSpacePassMeasurements, due: &Charged, level: i64, threads: u32, what: &str) -> Result<(), String> {
    let noise = noise(threads);
    let before = s.used_memory_before as i64;
    let close = |a: i64, b: i64| (a - b).abs() <= noise;
    ensure_r!((before - level).abs() <= noise + 65536, "{what}: heap level at start {before} where it was {level}");
    ensure_r!(close(s.max_used_memory as i64 - before, due.up as i64), "{what}: heap peak {} over the start where it was {}", s.max_used_memory as i64 - before, due.up);
    ensure_r!(close(before - s.min_used_memory as i64, due.down as i64), "{what}: heap low {} under the start where it was {}", before - s.min_used_memory as i64, due.down);
    ensure_r!(close(s.used_memory_after as i64 - before, due.net), "{what}: heap level at end {} from the start where it was {}", s.used_memory_after as i64 - before, due.net);
    Ok(())
}
fn same(a: &BigOSpacePassMeasurements, b: &BigOSpacePassMeasurements) -> bool {
    (a.used_memory_before, a.used_memory_after, a.min_used_memory, a.max_used_memory) == (b.used_memory_before, b.used_memory_after, b.min_used_memory, b.max_used_memory)
}
fn run_and_check_costs(c: &CostCase) -> Result<Vec<String>, String> {
    let (due, a, _) = run_costs(c)?;
    let cfg = &c.config;
    let mut classes = vec![];
    for op in 0..4 {
        ensure_r!(a.facts[op].is_some() == cfg.runs(op), "{}: presence of the analysis", OPS[op]);
        let Some(f) = &a.facts[op] else { continue };
        ensure_r!(f.name == OPS[op], "the analysis of {} is named {}", OPS[op], f.name);
        for pass in 0..2 {
            let what = format!("{} {}", OPS[op], ["first pass", "second pass"][pass]);
            let (total, charged, level) = &due[op][pass];
            check_time(f.time[pass], *total, cfg.n[op], cfg.threads[op], &what)?;
            check_space(&f.space[pass], charged, *level, cfg.threads[op], &what)?;
            if let Some(more) = &f.more {
                ensure_r!(more[pass].0 == f.time[pass] && same(&more[pass].1, &f.space[pass]), "{what}: two different sets of figures: {:?}/{:?} and {:?}/{:?}", f.time[pass], f.space[pass], more[pass].0, more[pass].1);
            }
            if charged.down > 0 { classes.push("dips".to_string()); }
            if charged.up > 0 { classes.push("peaks".to_string()); }
        }
        let n = cfg.n[op];
        let sizes = if op == 0 || op == 3 { vec![n] } else { vec![cfg.effective(0), cfg.effective(0) * 2, n] };
        ensure_r!(f.sizes == sizes, "{}: set sizes {:?} where {sizes:?} were used", OPS[op], f.sizes);
        // verdicts
        let used = |p: usize| (f.space[p].max_used_memory - f.space[p].used_memory_before) as f64;
        let secs = |p: usize| f.time[p].as_secs_f64();
        let (t, s) = if op == 0 || op == 3 {
            if n < 2 { continue; }
            (resizing_verdict(secs(0), secs(1), n as f64, TOL), resizing_verdict(used(0), used(1), n as f64, TOL))
        } else {
            if sizes[0] < 2 { continue; }
            (growth_verdict(secs(0), secs(1), sizes[0] as f64, sizes[1] as f64, TOL), growth_verdict(used(0), used(1), sizes[0] as f64, sizes[1] as f64, TOL))
        };
        if let Some(t) = t { ensure_r!(ALL[t] == f.time_verdict, "{}: time verdict {:?} for {:?} over {sizes:?}, which call for {:?}", OPS[op], f.time_verdict, f.time, ALL[t]); }
        if let Some(s) = s { ensure_r!(ALL[s] == f.space_verdict, "{}: space verdict {:?} for heap usages {} & {} over {sizes:?}, which call for {:?}", OPS[op], f.space_verdict, used(0), used(1), ALL[s]); }
        classes.push(OPS[op].to_string());
        if cfg.threads[op] > 1 { classes.push("multi-threaded".to_string()); }
    }
    if cfg.warmup > 0 { classes.push("warm-up".to_string()); }
    classes.sort();
    classes.dedup();
    Ok(classes)
}
fn check_costs(c: &CostCase) -> Outcome {
    match run_and_check_costs(c) { Ok(classes) => pass_multi(classes.iter().any(|c| c == "dips" || c == "peaks"), classes), Err(e) => fail(e) }
}

// ---- C15 ------------------------------------------------------------------------------------------------------------

/// growth of time & peak heap aimed at, for each operation
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TestCase { config: Config, attempts: u32, limits: [(usize, usize); 4], growths: Vec<[(f64, f64); 4]> }

const SPIKE: f64 = (1u32 << 20) as f64;

fn aimed_growth(op: usize, class: usize, n: f64, jitter: f64) -> f64 {
    if op == 1 || op == 2 { return (aimed(class, 1e4, n, n * 2.0, jitter) / 1e4).clamp(0.2, 40.0); }
    let g = (3.0 * n).ln() / n.ln();
    match class { 0 => 0.5 + 0.3 * jitter, 1 => 1.0 + 0.08 * jitter, 2 => 1.1 + (g - 1.1).max(0.0) * (0.5 + 0.45 * jitter), 3 => g * (1.05 + 0.04 * jitter), 4 => g * 1.1 + (2.7 - g * 1.1).max(0.0) * (0.5 + 0.45 * jitter), 5 => 3.0 * (1.0 + 0.09 * jitter), _ => 5.0 + 1.5 * jitter }
}
fn test_case() -> BoxedStrategy<TestCase> {
    let n = || prop_oneof![1 => Just(0u32), 4 => 2u32..12, 4 => 2u32..40];
    let t = || prop_oneof![1 => Just(0u32), 12 => Just(1u32), 4 => 2u32..4];
    let warm = prop_oneof![3 => Just(0u32), 2 => 1u32..60];
    let limit = || prop_oneof![3 => 0usize..7, 2 => 0usize..17];
    let growth = || (0u8..20, 0usize..17, -1.0f64..1.0, 0u8..40, 0usize..17, -1.0f64..1.0);
    let limits = ((limit(), limit()), (limit(), limit()), (limit(), limit()), (limit(), limit()));
    let attempts = prop_oneof![9 => 0u32..9, 1 => 9u32..40];
    ((n(), n(), n(), n()), (t(), t(), t(), t()), warm, attempts, limits, prop::collection::vec((growth(), growth(), growth(), growth()), 9)).prop_map(|(n, t, warmup, attempts, l, growths)| {
        let mut config = Config { n: [n.0, n.1, n.2, n.3], threads: [t.0, t.1, t.2, t.3], warmup };
        // reading or updating nothing has no verdict
        if !config.runs(0) { config.n[1] = 0; config.n[2] = 0; }
        let limits = [l.0, l.1, l.2, l.3];
        let count = attempts.max(1) as usize;
        // long histories start with repetitions of the first attempt
        let growths = std::iter::repeat_n(growths[0].clone(), count.saturating_sub(9)).chain(growths.clone()).take(count).map(|g| {
            let mut op = 0;
            [g.0, g.1, g.2, g.3].map(|(tk, tx, tj, sk, sx, sj)| {
                let n = config.n[if op == 3 { 3 } else { 0 }].max(2) as f64;
                let worst = if op == 0 || op == 3 { 6 } else { 16 };
                let pick = |limit: usize, kind: u8, x: usize| match kind {
                    0 | 1 if limit < worst => limit + 1 + x % (worst - limit),
                    2 if limit < worst => limit + 1,
                    3..=5 => limit.min(worst),
                    _ => x % (limit.min(worst) + 1),
                };
                let r = (aimed_growth(op, pick(limits[op].0, tk, tx), n, tj), aimed_growth(op, pick(limits[op].1, sk, sx), n, sj));
                op += 1;
                r
            })
        }).collect();
        TestCase { config, attempts, limits, growths }
    }).boxed()
}

#[derive(Clone, Copy)]
struct Cost { op: u8, elem: u32, attempt: u32, ns: u64, spike: u64 }

enum Verdict { Within, Time(C, C), Space(C, C), Both(C, C, C, C) }

fn check_test(c: &TestCase) -> Outcome {
    let cfg = &c.config;
    let per_attempt: usize = (0..4).map(|o| cfg.effective(o) as usize * 6).sum::<usize>() + 4;
    let costs = Log::<Cost>::new(per_attempt * (c.attempts as usize + 1) + 64);
    let resets = Log::<u32>::new(128);
    let per_attempt_resets = if cfg.warmup > 0 { 2 } else { 1 };
    let world = World::enter(50_000);
    let result = catch(|| test(cfg, c.attempts, &c.limits, &|n| { charge(5); spike(1 << 22); resets.push(n) },
        &|op, e| {
            let done = resets.len();
            let attempt = done / per_attempt_resets;
            let warming = cfg.warmup > 0 && done % 2 == 0;
            if warming { charge(12345); return; }
            let (gt, gs) = c.growths[attempt.min(c.growths.len() - 1)][op as usize];
            let x = (e + 1) as f64 / cfg.n[op as usize] as f64;
            let ns = (1e6 * x.powf((gt + 1.0).log2() - 1.0)) as u64;
            let spike_size = (SPIKE * x.powf(gs.log2())).clamp(100_000.0, 1e9) as u64;
            charge(ns);
            spike(spike_size as usize);
            costs.push(Cost { op, elem: e, attempt: attempt as u32, ns, spike: spike_size });
        }));
    drop(world);
    let costs = costs.all();
    let resets = resets.all();
    let max_attempts = c.attempts.max(1) as usize;
    let attempts_made = costs.iter().map(|c| c.attempt as usize + 1).max().unwrap_or(0);
    let asked = (0..4).any(|o| cfg.runs(o));
    if !asked {
        ensure!(result.is_ok(), "nothing was to be tested, but: {result:?}");
        return pass(false, "nothing to test");
    }
    // the oracle: attempt by attempt, operation by operation, from what they were made to cost
    let mut failures: BTreeMap<String, u32> = BTreeMap::new();
    for attempt in 0..=attempts_made {
        let of = |op: usize| -> Vec<&Cost> { costs.iter().filter(|c| c.attempt as usize == attempt && c.op as usize == op).collect() };
        ensure!(attempt < attempts_made, "{attempt} attempts were made where another one was due (out of {max_attempts}); outcome: {result:?}");
        let created = of(0).len() as u32 / 2;
        let mut ended: Option<(usize, Verdict)> = None;
        for op in 0..4 {
            if !cfg.runs(op) { ensure!(of(op).is_empty(), "{} shouldn't run", OPS[op]); continue; }
            if ended.is_some() {
                // operations of the same pass may have run before the limit was found to be exceeded
                continue;
            }
            let calls = of(op);
            ensure!(!calls.is_empty() && calls.len() % 2 == 0, "attempt #{attempt}: {} ran {} times, although no limit was exceeded before; outcome: {result:?}", OPS[op], calls.len());
            let n = calls.len() as u32 / 2;
            if n < 2 || (cfg.runs(0) && created < 2) { return Outcome::Skip("sets of a single element have no verdict"); }
            let mut time = [0u64; 2];
            let mut peak = [0u64; 2];
            for call in &calls {
                let p = (call.elem >= n) as usize;
                time[p] += call.ns;
                peak[p] = peak[p].max(call.spike);
            }
            let noise = noise(cfg.threads[op]) as u64;
            let verdict_of = |a: f64, b: f64| if op == 0 || op == 3 { resizing_verdict(a, b, n as f64, TOL) } else { growth_verdict(a, b, created as f64, created as f64 * 2.0, TOL) };
            let all = |v: Vec<Option<usize>>| -> Option<usize> { let first = v[0]?; if v.iter().all(|x| *x == Some(first)) { Some(first) } else { None } };
            let threads = cfg.threads[op] as f64;
            let (a, b) = (time[0] as f64 * 1e-9 / threads, time[1] as f64 * 1e-9 / threads);
            // averages are rounded to whole nanoseconds
            let off = |x: f64| if x == 0.0 { [0.0; 2] } else { let d = x * 1e-6 + if threads > 1.0 { 1e-9 } else { 0.0 }; [(x - d).max(0.0), x + d] };
            let t = all(vec![verdict_of(a, b), verdict_of(off(a)[0], off(b)[1]), verdict_of(off(a)[1], off(b)[0]), verdict_of(off(a)[0], off(b)[0]), verdict_of(off(a)[1], off(b)[1])]);
            let (a, b, d) = (peak[0] as f64, peak[1] as f64, noise as f64);
            let s = all(vec![verdict_of(a, b), verdict_of(a + d, b), verdict_of(a, b + d), verdict_of(a + d, b + d)]);
            let (Some(t), Some(s)) = (t, s) else { return Outcome::Skip("edge of a band") };
            let (lt, ls) = c.limits[op];
            match (t > lt, s > ls) {
                (false, false) => {},
                (true, false) => ended = Some((op, Verdict::Time(ALL[lt], ALL[t]))),
                (false, true) => ended = Some((op, Verdict::Space(ALL[ls], ALL[s]))),
                (true, true) => ended = Some((op, Verdict::Both(ALL[lt], ALL[t], ALL[ls], ALL[s]))),
            }
        }
        let Some((op, verdict)) = ended else {
            // accepted
            ensure!(result.is_ok(), "attempt #{attempt} meets every limit, but: {result:?}");
            ensure!(attempts_made == attempt + 1, "attempt #{attempt} meets every limit, but {attempts_made} were made");
            let due = (attempt + 1) * per_attempt_resets - 1;
            ensure!(resets.len() == due, "{} resets where {due} were due: {resets:?}", resets.len());
            return pass_multi(true, vec!["accepted".into(), format!("attempts-{attempts_made}"), format!("max-{}", c.attempts)]);
        };
        // nothing else runs once a limit is exceeded (reads & updates of the second pass follow the creates)
        for later in op + 1..4 {
            let calls = of(later);
            let n = if op == 3 { 0 } else { calls.iter().map(|c| c.elem + 1).max().unwrap_or(0) };
            let allowed = if later == 3 { 0 } else { n as usize };
            ensure!(calls.len() <= allowed && (later == 3 || calls.len() as u32 <= c.config.n[later] * 2), "attempt #{attempt}: {} exceeded its limit, but {} went on", OPS[op], OPS[later]);
        }
        let describe = |resource: &str, l: C, v: C, msg: &str| -> Result<(), String> {
            ensure_r!(msg.contains(OPS[op]) && msg.to_uppercase().contains(resource) && names(msg, l) && names(msg, v), "the failure should name {}, {resource}, the limit {l:?} and the verdict {v:?}: {msg}", OPS[op]);
            Ok(())
        };
        let last = attempt + 1 == max_attempts;
        let retried = attempts_made > attempt + 1;
        let check_end = |resource: &str, l: C, v: C| -> Result<(), String> {
            match &result {
                Ok(()) => Err(format!("accepted, although {} has the {resource} verdict {v:?} for a limit of {l:?} in attempt #{attempt} of {max_attempts}", OPS[op])),
                Err(msg) => describe(resource, l, v, msg),
            }
        };
        let mut may_retry = false;
        match verdict {
            Verdict::Within => unreachable!(),
            Verdict::Space(l, v) => {
                ensure!(!retried, "attempt #{attempt}: {} exceeded its space limit, but another attempt was made", OPS[op]);
                if let Err(e) = check_end("SPACE", l, v) { return fail(e); }
            },
            Verdict::Time(l, v) if last => {
                ensure!(!retried, "{attempts_made} attempts were made where {max_attempts} is the maximum");
                if let Err(e) = check_end("TIME", l, v) { return fail(e); }
                if let Err(msg) = &result {
                    let told: Vec<&str> = msg.lines().filter_map(|l| l.strip_prefix(" - ")).collect();
                    let mut due: Vec<String> = failures.iter().map(|(what, count)| format!("{what} ({count} time{})", if *count == 1 { "" } else { "s" })).collect();
                    ensure!(told.len() == due.len() && { due.retain(|d| !told.contains(&d.as_str())); due.is_empty() }, "the previous failures aren't told as they were, {failures:?}: {msg}");
                }
            },
            Verdict::Time(_, v) => { may_retry = true; *failures.entry(format!("{} with {v:?}", OPS[op])).or_default() += 1; },
            // which one takes precedence isn't specified
            Verdict::Both(lt, vt, ls, vs) => {
                if retried && !last { may_retry = true; *failures.entry(format!("{} with {vt:?}", OPS[op])).or_default() += 1; }
                else if let (Err(e), Err(_)) = (check_end("TIME", lt, vt), check_end("SPACE", ls, vs)) { return fail(e); }
            },
        }
        if !may_retry {
            return pass_multi(true, vec!["rejected".into(), format!("attempts-{attempts_made}"), format!("rejected-by-{}", OPS[op])]);
        }
        let index = (attempt + 1) * per_attempt_resets - 1;
        let given = resets.get(index).copied();
        let due = if cfg.runs(0) { created * 2 } else { 0 };
        ensure!(given == Some(due), "reset should have been called with {due} before retrying attempt #{attempt}: resets: {resets:?}");
    }
    unreachable!()
}

// sets of one element have no specified verdict: only whether everything runs
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TinyCase { config: Config, attempts: u32, slow: Vec<bool> }
fn tiny_case() -> BoxedStrategy<TinyCase> {
    (2u32..30, prop::collection::vec(1u32..5, 3), prop::collection::vec(1u32..3, 4), 0u32..2, 1u32..9, prop::collection::vec(any::<bool>(), 9), prop_oneof![8 => Just(0u32), 2 => 1u32..40, 1 => 40u32..140], prop_oneof![9 => Just(0u32), 1 => any::<u32>(), 1 => Just(u32::MAX)]).prop_map(|(c, n, t, w, attempts, mut slow, late, most)|
        // (the first fast attempt may come late, and the limit on the attempts may be as good as none)
        { slow.splice(0..0, std::iter::repeat_n(true, late as usize)); let attempts = if slow.iter().any(|s| !s) { most.max(attempts + late) } else { attempts + late }; TinyCase { config: Config { n: [c, n[0], n[1], n[2]], threads: [t[0], t[1], t[2], t[3]], warmup: w * 50 }, attempts, slow } }).boxed()
}
/// the create operation decides every attempt; the others have tiny sets and no limits: they must run in every attempt
fn check_tiny(c: &TinyCase) -> Outcome {
    let calls = Log::<(u8, u32, u32)>::new(32768);
    let resets = AtomicU32::new(0);
    let per_attempt_resets = if c.config.warmup > 0 { 2 } else { 1 };
    let world = World::enter(0);
    // deletes decide: their cost grows in the slow attempts
    let result = catch(|| test(&c.config, c.attempts, &[(16, 16), (16, 16), (16, 16), (16, 16)], &|_| { resets.fetch_add(1, SeqCst); },
        &|op, e| {
            let attempt = resets.load(SeqCst) / per_attempt_resets;
            charge(1000);
            calls.push((op, e, attempt));
        }));
    drop(world);
    ensure!(result.is_ok(), "every verdict is allowed, but: {result:?}");
    let calls = calls.all();
    for op in 0..4u8 { ensure!(calls.iter().any(|c| c.0 == op && c.2 == 0), "{} never ran", OPS[op as usize]); }
    // now retry because of creates, with everything else still due in the accepted attempt
    let calls = Log::<(u8, u32)>::new(32768);
    let resets = AtomicU32::new(0);
    let first_fast = c.slow.iter().take(c.attempts as usize).position(|s| !s);
    let world = World::enter(0);
    let result = catch(|| test(&c.config, c.attempts, &[(6, 16), (16, 16), (16, 16), (16, 16)].map(|l| if l.0 == 6 { (1, 16) } else { l }), &|_| { resets.fetch_add(1, SeqCst); },
        &|op, e| {
            let done = resets.load(SeqCst);
            let attempt = done / per_attempt_resets;
            if c.config.warmup > 0 && done % 2 == 0 { return; }
            // quadratic growth in the slow attempts
            charge(if op == 0 && c.slow[attempt as usize % c.slow.len()] { 1000 * (e as u64 + 1) * (e as u64 + 1) } else { 1000 });
            calls.push((op, attempt));
        }));
    drop(world);
    let calls = calls.all();
    match first_fast {
        Some(a) => {
            ensure!(result.is_ok(), "attempt #{a} meets every limit, but: {result:?}");
            for op in 0..4u8 { ensure!(calls.iter().any(|c| c.0 == op && c.1 == a as u32), "{} didn't run in attempt #{a}, the accepted one ({:?})", OPS[op as usize], c.config); }
            for op in 1..3u8 { for at in 0..a as u32 { ensure!(calls.iter().any(|c| c.0 == op && c.1 == at), "{} didn't run in the first pass of attempt #{at} ({:?})", OPS[op as usize], c.config); } }
            ensure!(calls.iter().all(|c| c.1 <= a as u32), "attempts were made after #{a}, the accepted one");
        },
        None => match &result {
            Ok(()) => return fail("no attempt meets the limit of create, but the test passed"),
            Err(msg) => {
                let made = calls.iter().map(|c| c.1 + 1).max().unwrap_or(0);
                let told: u32 = msg.lines().filter_map(|l| l.rsplit_once('(')?.1.split_once(" time")?.0.parse::<u32>().ok()).sum();
                ensure!(told + 1 == made, "{made} attempts were made, but {told} previous failures are told: {msg}");
            },
        },
    }
    pass(first_fast != Some(0), format!("accepted-at-{first_fast:?}"))
}

// ---- C19: threads at the same time ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Together { op: usize, extra: u32, threads: u32, ns: Vec<u64>, sizes: Vec<u32>, start_up: u64 }
fn together() -> BoxedStrategy<Together> {
    (0usize..4, 0u32..20, prop_oneof![20 => 2u32..7, 2 => 7u32..13, 1 => 13u32..34], prop::collection::vec(ns_strategy(), 8), prop::collection::vec((1u32..100).prop_map(|k| k * UNIT), 8), ns_strategy()).prop_map(|(op, extra, threads, ns, sizes, start_up)| Together { op, extra, threads, ns, sizes, start_up }).boxed()
}
thread_local! { static STAGE_SEEN: Cell<u32> = const { Cell::new(u32::MAX) }; }
/// every thread of a pass holds a block at the same time
fn check_together(c: &Together) -> Outcome {
    let mut cfg = Config { n: [0; 4], threads: [1; 4], warmup: 0 };
    let n = c.threads * c.threads + c.extra;
    cfg.n[c.op] = n;
    cfg.threads[c.op] = c.threads;
    let arrived = [AtomicU32::new(0), AtomicU32::new(0)];
    let total: [AtomicU64; 2] = Default::default();
    let world = World::enter(c.start_up);
    let r = catch(|| analyse("sut", &cfg, &|_| {}, &|_, e| {
        let stage = (e >= n) as u32;
        let ns = c.ns[e as usize % c.ns.len()];
        charge(ns);
        total[stage as usize].fetch_add(ns, SeqCst);
        if STAGE_SEEN.with(|s| s.replace(stage)) != stage {
            let me = arrived[stage as usize].fetch_add(1, SeqCst) as usize;
            keep(c.sizes[me % c.sizes.len()] as usize);
            let limit = real_ns() + 2_000_000_000;
            while arrived[stage as usize].load(SeqCst) < c.threads && real_ns() < limit { std::thread::yield_now(); }
            // held by all: only then freed -- by the last one to leave
            if arrived[stage as usize].fetch_add(100, SeqCst) / 100 == c.threads - 1 { free_everything(); }
        }
    }));
    drop(world);
    let a = match r { Ok(a) => a, Err(e) => return fail(format!("unexpected failure: {e}")) };
    let Some(f) = &a.facts[c.op] else { return fail("no analysis") };
    if arrived.iter().any(|a| a.load(SeqCst) != c.threads * 101) { return Outcome::Skip("the threads weren't all together"); }
    let sum: u64 = (0..c.threads as usize).map(|t| c.sizes[t % c.sizes.len()] as u64).sum();
    for pass in 0..2 {
        let what = format!("{} {} by {} threads", OPS[c.op], ["first pass", "second pass"][pass], c.threads);
        let s = &f.space[pass];
        let up = s.max_used_memory as i64 - s.used_memory_before as i64;
        ensure!((up - sum as i64).abs() <= noise(c.threads), "{what}: peak {up}, where {sum} bytes were held by all the threads");
        let net = s.used_memory_after as i64 - s.used_memory_before as i64;
        ensure!(net.abs() <= noise(c.threads), "{what}: level at end {net} from the start, although everything was freed");
        if let Err(e) = check_time(f.time[pass], total[pass].load(SeqCst), n, c.threads, &what) { return fail(e); }
    }
    pass_multi(true, vec![OPS[c.op].to_string(), format!("threads-{}", c.threads)])
}
pub fn charge_sub() -> Sub { Sub::new("together", 12_000, 600_000, together(), check_together) }

// ---- C21 ------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CrudFault { #[serde(default)] kind: u8, #[serde(default)] many: bool, config: Config, attempts: u32, attempt: u32, target: u8, position: u32, upper: bool, warming: bool, follow_up: CostCase, follow_up_regular: ChargeCase }
fn crud_fault() -> BoxedStrategy<CrudFault> {
    let n = || 2u32..24;
    let t = || prop_oneof![8 => 1u32..5, 1 => 5u32..21];
    (((n(), n(), n(), n()), (t(), t(), t(), t()), prop_oneof![2 => Just(0u32), 3 => 1u32..101]), 0u32..3, 1u32..4, 0u8..5, (any::<u32>(), any::<u8>(), any::<bool>()), any::<bool>(), any::<bool>(), cost_case(), charge_case(false))
        .prop_map(|((n, t, warmup), attempt, extra, target, (position, kind, many), upper, warming, follow_up, follow_up_regular)|
            CrudFault { kind, many, config: Config { n: [n.0, n.1, n.2, n.3], threads: [t.0, t.1, t.2, t.3], warmup }, attempts: attempt + extra, attempt, target, position, upper, warming, follow_up, follow_up_regular }).boxed()
}
fn check_crud_fault(c: &CrudFault) -> Outcome {
    let cfg = &c.config;
    let calls = Calls::new(8192);
    let per_attempt_resets = if cfg.warmup > 0 { 2 } else { 1 };
    let fault = Mutex::new(None::<Call>);
    let hit = |i: usize| { fault.lock().unwrap().get_or_insert(calls.lock()[i]); };
    let seen = AtomicU32::new(0);
    let warming_due = c.warming && cfg.warmup > 0;
    let world = World::enter(1000);
    let op_fn = |op: u8, e: u32| {
        let i = calls.begin(op, e);
        let done = calls.resets();
        let attempt = done / per_attempt_resets;
        let warming = cfg.warmup > 0 && done % 2 == 0;
        // creates are too slow on the attempts before the one with the fault
        let e1 = e as u64 + 1;
        charge(if op == 0 && !warming && attempt < c.attempt { e1 * e1 * e1 * e1 * 100 } else { 1000 });
        if attempt == c.attempt && op == c.target && warming == warming_due {
            // counts are adapted on retries: here, only a hint on how many calls are due
            let n = if attempt == 0 { cfg.n[op as usize] } else if (attempt - 1) % 3 == 0 { 2 } else { cfg.n[op as usize] * 9 / 10 };
            let due = if warming { cfg.warmup_n(op as usize).min(n) } else if c.upper { n * 2 } else { n };
            let now = seen.fetch_add(1, SeqCst);
            // other threads may panic as well
            if due > 0 && (now == c.position % due || (c.many && now > c.position % due)) { hit(i); vcommon::inject(c.kind); }
        }
        calls.end(i);
    };
    let reset_fn = |n: u32| {
        let i = calls.begin(RESET, n);
        let done = calls.resets();
        // the reset after the warm-up or the one before a retry, of the chosen attempt
        let due = if cfg.warmup > 0 && c.warming { c.attempt * 2 } else if c.attempt > 0 { c.attempt * per_attempt_resets - 1 } else { u32::MAX };
        if c.target == RESET && done == due { hit(i); vcommon::inject(c.kind); }
        calls.end(i);
    };
    let result = catch(|| {
        if c.attempt == 0 && c.position % 2 == 0 { analyse("sut", cfg, &reset_fn, &op_fn); }
        else { test(cfg, c.attempts, &[(3, 16), (16, 16), (16, 16), (16, 16)], &reset_fn, &op_fn); }
    });
    drop(world);
    let Some(fault) = *fault.lock().unwrap() else {
        ensure!(result.is_ok(), "unexpected failure: {result:?}");
        return pass(false, "fault not reached");
    };
    ensure!(result.is_err(), "a user function panicked ({} on {}), but the test passed", OPS.get(fault.op as usize).unwrap_or(&"reset"), fault.elem);
    // what was running already may go on to the end of its pass -- no other pass may start.
    // (only delete has two passes in a row: n..2n, then 0..n)
    let all = calls.all();
    let deleted: Vec<u32> = all.iter().filter(|l| l.op == 3 && l.resets == fault.resets && l.start <= fault.start).map(|l| l.elem).collect();
    let in_upper_deletes = fault.op == 3 && !(cfg.warmup > 0 && fault.resets % 2 == 0) && *deleted.iter().min().unwrap() > deleted.iter().max().unwrap() / 2;
    for later in all.iter().filter(|l| l.start > fault.start) {
        ensure!(later.op == fault.op && later.op != RESET && later.resets == fault.resets && !(in_upper_deletes && later.elem <= fault.elem / 2), "{} ran on {} after the panic of {} on {}",
                OPS.get(later.op as usize).unwrap_or(&"reset"), later.elem, OPS.get(fault.op as usize).unwrap_or(&"reset"), fault.elem);
    }
    if let Err(e) = run_and_check_costs(&c.follow_up) { return fail(format!("the CRUD analysis following a panic is affected by it: {e}")); }
    if let Err(e) = run_charge(&c.follow_up_regular) { return fail(format!("the analysis following a panic is affected by it: {e}")); }
    pass_multi(true, vec![OPS.get(fault.op as usize).unwrap_or(&"reset").to_string(), format!("attempt-{}", c.attempt), if cfg.threads.get(fault.op as usize).is_some_and(|t| *t > 1) { "multi-threaded" } else { "single-threaded" }.to_string(), format!("payload-{}", c.kind % 4)])
}
pub fn fault_sub() -> Sub { Sub::new("crud", 9_000, 450_000, crud_fault(), check_crud_fault) }

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C12", rule: "CRUD analyses with iteration counts 0..2500 and 0..32 threads per operation, warm-up 0..100%, calls logged with their thread and a global sequence; single operations with up to 150000 elements and 400 threads, or 2^25 .. 80M elements (counted in blocks); nontrivial: some pass ran by several threads",
        assumptions: vec!["schedules are the ones the machine produces, disturbed by generated delays"],
        subs: vec![Sub::new("passes", 20_000, 1_000_000, config(), check_pass_calls), Sub::new("wide", 320, 16_000, wide(), check_pass_calls), Sub::new("huge", 8, 200, huge(), check_huge)] },
    Prop { id: "C13", rule: "as C12, plus single operations with 2^25 .. 80M elements (counted in blocks); nontrivial: at least one operation runs",
        assumptions: vec!["schedules are the ones the machine produces"],
        subs: vec![Sub::new("protocol", 12_000, 600_000, config(), check_protocol), Sub::new("huge", 8, 200, huge(), check_huge)] },
    Prop { id: "C14", rule: "generated time and heap costs per operation, pass, warm-up and reset, 0..39 iterations, 0..8 threads; returned figures compared to a model of the costs; nontrivial: heap peaks or dips in some pass",
        assumptions: vec!["time only passes when the user functions say so: clock_gettime & sleeps of the process are virtual", "heap is compared up to the noise of starting threads (2 KiB per thread + 4 KiB); costs are multiples of 256 KiB", "verdicts are decided for 2 elements or more"],
        subs: vec![Sub::new("costs", 35_000, 1_500_000, cost_case(), check_costs)] },
    Prop { id: "C15", rule: "attempts of generated per-operation growths of time and heap aimed at every verdict around the limits, 0..8 (sometimes up to 48) attempts, 0..39 iterations (the verdicts are computed from the logged costs); nontrivial: at least one verdict is decided",
        assumptions: vec!["time only passes when the user functions say so: clock_gettime & sleeps of the process are virtual", "cases with a verdict which the noise of starting threads could move over the edge of a band are not decided", "when time and space exceed their limits in the same operation, either reaction is accepted"],
        subs: vec![Sub::new("attempts", 60_000, 3_000_000, test_case(), check_test), Sub::new("tiny", 8_000, 400_000, tiny_case(), check_tiny)] },
] }
