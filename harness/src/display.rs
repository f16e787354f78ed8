//! C20: displayed analyses, parsed back

use crate::analysis::{dur, log_u128, log_u32};
use crate::crud::{cost_case, run_costs, CostCase, Facts, OPS};
use crate::reference::*;
use crate::regular::{charge_case, run_charge};
use crate::report::*;
use big_o_test::low_level_analysis::types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use big_o_test::metrics_allocator::MetricsAllocatorStatistics;
use std::sync::atomic::AtomicUsize;
use std::time::Duration;
use vcommon::*;

// ---- C20 ------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ShownPass { ns: u128, before: u64, up: u64, down: u64, at: u64 }
impl ShownPass {
    fn net(&self) -> i64 { (self.at as i128 % (self.up as i128 + self.down as i128 + 1) - self.down as i128) as i64 }
    fn space(&self) -> BigOSpacePassMeasurements {
        BigOSpacePassMeasurements { used_memory_before: self.before as usize, used_memory_after: (self.before as i64 + self.net()) as usize, max_used_memory: (self.before + self.up) as usize, min_used_memory: (self.before - self.down) as usize }
    }
    fn time(&self) -> Duration { dur(self.ns) }
    fn facts(&self, n: u64) -> PassFacts { PassFacts { time: self.time(), up: self.up, down: self.down, net: self.net(), n } }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shown { kind: usize, name: String, sizes: (u32, u32, u32), passes: [ShownPass; 2], time: usize, space: usize }

fn amount() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => Just(0u64), 2 => 1u64..1100, 4 => log_u128(1, 1 << 60).prop_map(|x| x as u64),
        // around the changes of unit
        2 => (0usize..4, -3i64..4).prop_map(|(i, d)| ([1i64 << 10, 1 << 20, 1 << 30, 1 << 40][i] + d) as u64),
    ].boxed()
}
fn shown_pass() -> BoxedStrategy<ShownPass> {
    (prop_oneof![1 => Just(0u128), 6 => log_u128(1, 1 << 92), 2 => (0u32..20, 0u128..1000).prop_map(|(e, k)| 10u128.pow(e) * k)],
     prop_oneof![1 => Just(0u64), 3 => amount(), 3 => (1u64 << 24)..(1 << 60)], amount(), amount(), prop_oneof![1 => Just(0u64), 1 => Just(u64::MAX >> 1), 4 => any::<u64>()], 0u8..4)
        .prop_map(|(ns, before, up, down, at, back)| {
            let (mut s, down) = (ShownPass { ns, before, up, down: 0, at: 0 }, down.min(before));
            s.down = down;
            // quite often, back to where it was
            s.at = if back == 0 { down } else { at };
            s
        }).boxed()
}
fn size() -> BoxedStrategy<u32> { prop_oneof![3 => log_u32(1, u32::MAX), 1 => 1u32..10, 1 => (u32::MAX - 3)..u32::MAX, 1 => ((1u32 << 31) - 3)..((1 << 31) + 3)].boxed() }
fn name() -> BoxedStrategy<String> { prop_oneof![3 => "[a-zA-Z ]{1,16}", 2 => "\\PC{0,20}", 1 => "\\PC{30,90}", 1 => "['(:;)>+\\-0-9 {}]{0,12}"].boxed() }
fn shown() -> BoxedStrategy<Shown> {
    (0usize..3, name(), (size(), size(), size()), shown_pass(), shown_pass(), 0usize..17, 0usize..17).prop_map(|(kind, name, sizes, p1, p2, time, space)| Shown { kind, name, sizes, passes: [p1, p2], time, space }).boxed()
}

fn time_measurements(p: &[ShownPass; 2]) -> BigOTimeMeasurements { BigOTimeMeasurements { pass_1_measurements: p[0].time(), pass_2_measurements: p[1].time() } }
fn space_measurements(p: &[ShownPass; 2]) -> BigOSpaceMeasurements { BigOSpaceMeasurements { pass_1_measurements: p[0].space(), pass_2_measurements: p[1].space() } }
fn pass_measurements(p: &ShownPass) -> BigOPassMeasurements { BigOPassMeasurements { time_measurements: p.time(), space_measurements: p.space(), custom_measurements: vec![] } }

/// checks the per-element columns
fn check_rest(p: &Parsed, kind: usize, sizes: (u64, u64, u64), facts: &[PassFacts; 2]) -> Result<(), String> {
    for (i, (row, f)) in p.rows.iter().zip(facts).enumerate() {
        let what = |e: String| format!("row {}: {e}", i + 1);
        ensure_r!(row.rest.len() == if kind == 2 { 1 } else { 2 }, "row {}: unexpected number of columns", i + 1);
        let (per_n, elements) = match kind {
            0 => {
                let sign = match f.net { n if n > 0 => '+', n if n < 0 => '-', _ => ' ' };
                parse_mem(&row.rest[0]).and_then(|m| m.check(f.up.max(f.down) as f64 / f.n as f64, Some(sign))).map_err(|e| what(format!("heap per element: {e}")))?;
                (&row.rest[1], f.n)
            },
            1 => {
                ensure_r!(row.rest[0].parse() == Ok(sizes.2), "row {}: {} repetitions are shown instead of {}", i + 1, row.rest[0], sizes.2);
                (&row.rest[1], sizes.2)
            },
            _ => (&row.rest[0], sizes.0),
        };
        check_time_per(per_n, f.time, elements).map_err(what)?;
    }
    Ok(())
}
const KINDS: [&str; 3] = ["regular-algorithm", "constant set iterator-algorithm", "set resizing iterator-algorithm"];

fn check_shown(c: &Shown) -> Outcome {
    let p = &c.passes;
    let (n1, n2, r) = c.sizes;
    let (time_complexity, space_complexity) = (ALL[c.time], ALL[c.space]);
    let text = catch(|| match c.kind {
        0 => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: AlgorithmMeasurements { measurement_name: &c.name, passes_info: AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 },
            time_measurements: time_measurements(p), space_measurements: space_measurements(p), pass1_measurements: pass_measurements(&p[0]), pass2_measurements: pass_measurements(&p[1]) } }.to_string(),
        1 => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: ConstantSetIteratorAlgorithmMeasurements { measurement_name: &c.name, passes_info: ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: r },
            time_measurements: time_measurements(p), space_measurements: space_measurements(p), pass1_measurements: pass_measurements(&p[0]), pass2_measurements: pass_measurements(&p[1]) } }.to_string(),
        _ => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: SetResizingIteratorAlgorithmMeasurements { measurement_name: &c.name, passes_info: SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 },
            time_measurements: time_measurements(p), space_measurements: space_measurements(p) } }.to_string(),
    });
    let text = match text { Ok(t) => t, Err(e) => return fail(format!("cannot be displayed: {e}")) };
    let parsed = match parse_analysis(&text, &c.name) { Ok(p) => p, Err(e) => return fail(format!("{e}: {text}")) };
    ensure!(parsed.kind == KINDS[c.kind], "shown as a {}: {text}", parsed.kind);
    let facts = match c.kind { 2 => [p[0].facts(n1 as u64), p[1].facts(n1 as u64 * 2)], _ => [p[0].facts(n1 as u64), p[1].facts(n2 as u64)] };
    if let Err(e) = check_passes(&parsed, &facts).and_then(|_| check_rest(&parsed, c.kind, (n1 as u64, n2 as u64, r as u64), &facts)) { return fail(format!("{e}: {text}")); }
    ensure!(parsed.time_verdict == c.time, "the time verdict is shown as {:?} instead of {time_complexity:?}: {text}", ALL[parsed.time_verdict]);
    ensure!(parsed.space_verdict == c.space, "the space verdict is shown as {:?} instead of {space_complexity:?}: {text}", ALL[parsed.space_verdict]);
    ensure!(parsed.verdicts == [time_complexity.as_time_pretty_str(), space_complexity.as_space_pretty_str()], "the verdicts on time and space aren't described as such: {text}");
    for (what, shown) in [("verdict", time_complexity.as_pretty_str()), ("time verdict", time_complexity.as_time_pretty_str()), ("space verdict", time_complexity.as_space_pretty_str())] {
        ensure!(verdict_named(shown) == Some(c.time), "the {what} {time_complexity:?} is described as '{shown}'");
    }
    let mut classes = vec![KINDS[c.kind].to_string(), format!("sign{}", parsed.rows[0].space.sign), parsed.kept.0.clone(), format!("unit-{}", parsed.rows[0].space.unit.log2())];
    if p[0].down > p[0].up { classes.push("low deviates more".into()); }
    if p[0].before > 1 << 24 && p[0].net() != 0 && p[0].net().unsigned_abs() < p[0].before >> 24 { classes.push("small change over a big level".into()); }
    pass_multi(p.iter().any(|p| p.ns > 0 || p.up > 0 || p.down > 0), classes)
}

fn facts_of(f: &Facts, pass: usize, n: u64) -> PassFacts {
    let s = &f.space[pass];
    PassFacts { time: f.time[pass], up: (s.max_used_memory - s.used_memory_before) as u64, down: (s.used_memory_before - s.min_used_memory) as u64, net: s.used_memory_after as i64 - s.used_memory_before as i64, n }
}
/// the report of a whole CRUD analysis
fn check_crud_report(c: &CostCase) -> Outcome {
    let (_, a, output) = match run_costs(c) { Ok(x) => x, Err(e) => return fail(e) };
    ensure!(output == a.report, "the report returned differs from what was output:\n{}\n-- output:\n{output}", a.report);
    ensure!(a.report.starts_with("sut CRUD"), "the report isn't named: {}", a.report);
    let mut at = 0;
    let mut shown = 0;
    for op in 0..4 {
        let Some(f) = &a.facts[op] else {
            ensure!(!a.report.contains(&format!("'{}' ", OPS[op])), "{} wasn't analysed, but is in the report: {}", OPS[op], a.report);
            continue;
        };
        let Some(found) = a.report[at..].find(&f.text) else { return fail(format!("the {} analysis isn't in the report, or isn't in order: {}\n-- report: {}", OPS[op], f.text, a.report)) };
        let resizing = op == 0 || op == 3;
        let sizes: Vec<u64> = f.sizes.iter().map(|s| *s as u64).collect();
        // reads & updates of nothing: displayed all the same
        let ns = if resizing { [sizes[0], sizes[0] * 2] } else { [sizes[0], sizes[1]] };
        let facts = [facts_of(f, 0, ns[0]), facts_of(f, 1, ns[1])];
        let r = parse_analysis(&f.text, OPS[op]).and_then(|p| {
            ensure_r!(p.kind == KINDS[if resizing { 2 } else { 1 }], "wrong kind of analysis");
            ensure_r!(ALL[p.time_verdict] == f.time_verdict && ALL[p.space_verdict] == f.space_verdict, "the verdicts shown aren't those of the analysis");
            check_passes(&p, &facts)?;
            check_rest(&p, if resizing { 2 } else { 1 }, if resizing { (sizes[0], 0, 0) } else { (sizes[0], sizes[1], sizes[2]) }, &facts)
        });
        if let Err(e) = r { return fail(format!("{}: {e}: {}", OPS[op], f.text)); }
        // the figures shown while it progresses
        let before = &a.report[..at + found];
        for pass in 0..2 {
            let label = match (op, pass) { (3, 0) => "1st: ".to_string(), (3, _) => "2nd: ".to_string(), _ => format!("{}: ", OPS[op].to_lowercase()) };
            let wanted = format!("{label}{:?}/", facts[pass].time);
            let ok = before.match_indices(&wanted).any(|(i, _)| {
                let rest = &before[i + wanted.len()..];
                let end = rest.find(|ch: char| !(ch.is_alphanumeric() || "+-.".contains(ch))).unwrap_or(rest.len());
                let sign = match facts[pass].net { n if n > 0 => '+', n if n < 0 => '-', _ => ' ' };
                parse_mem(&rest[..end]).and_then(|m| m.check(facts[pass].up.max(facts[pass].down) as f64, Some(sign))).is_ok()
            });
            ensure!(ok, "{} pass {} ({:?}, {}) isn't shown among the intermediate results: {before}", OPS[op], pass + 1, facts[pass].time, f.space[pass]);
        }
        at += found + f.text.len();
        shown += 1;
    }
    pass(shown > 0, format!("analyses-{shown}"))
}

// ---- the statistics of the allocator ----

fn figure() -> BoxedStrategy<usize> { prop_oneof![1 => 0usize..10, 3 => log_u128(1, u64::MAX as u128).prop_map(|x| x as usize), 1 => (usize::MAX - 9)..=usize::MAX].boxed() }
fn figures() -> BoxedStrategy<[usize; 12]> { proptest::array::uniform12(figure()).boxed() }
/// name & value of every figure, in the order they're shown
fn figures_shown(text: &str) -> Vec<(String, usize)> {
    let mut found = vec![];
    let mut groups: Vec<String> = vec![];
    let mut word = String::new();
    let mut name = String::new();
    for ch in text.chars().chain([',']) {
        match ch {
            '{' => groups.push(std::mem::take(&mut name)),
            ':' => name = std::mem::take(&mut word),
            ',' | '}' => {
                if let Ok(n) = std::mem::take(&mut word).parse() { found.push((groups.iter().chain([&name]).filter(|g| !g.is_empty()).cloned().collect::<Vec<_>>().join(" "), n)); }
                if ch == '}' { groups.pop(); }
            },
            ch if ch.is_whitespace() => (),
            ch => word.push(ch),
        }
    }
    found
}
const FIGURES: [&str; 12] = ["counts allocations", "counts deallocations", "counts zeroed_allocations", "counts reallocations",
    "bytes allocated", "bytes deallocated", "bytes zeroed", "bytes reallocated originals", "bytes reallocated news",
    "current_used_memory", "min_used_memory", "max_used_memory"];
macro_rules! statistics {
    ($f: expr, $new: expr) => {{
        let f = $f;
        MetricsAllocatorStatistics {
            allocations_count: $new(f[0]), deallocations_count: $new(f[1]), zeroed_allocations_count: $new(f[2]), reallocations_count: $new(f[3]),
            allocated_bytes: $new(f[4]), deallocated_bytes: $new(f[5]), zeroed_allocated_bytes: $new(f[6]), reallocated_originals_bytes: $new(f[7]), reallocated_news_bytes: $new(f[8]),
            current_used_memory: $new(f[9]), min_used_memory: $new(f[10]), max_used_memory: $new(f[11]),
        }
    }}
}
fn check_statistics(f: &[usize; 12]) -> Outcome {
    let (live, saved) = (statistics!(f, AtomicUsize::new), statistics!(f, |x: usize| x));
    for (what, text) in [("live, displayed", live.to_string()), ("live, debugged", format!("{live:?}")), ("saved, displayed", saved.to_string()), ("saved, debugged", format!("{saved:?}"))] {
        let shown = figures_shown(&text);
        for (name, value) in FIGURES.iter().zip(f) {
            let values: Vec<usize> = shown.iter().filter(|(n, _)| n == name).map(|(_, v)| *v).collect();
            ensure!(values == [*value], "statistics ({what}) show {values:?} as '{name}' where it is {value}: {text}");
        }
    }
    pass(f.iter().collect::<std::collections::HashSet<_>>().len() > 8, "statistics")
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C20", rule: "analyses of the three kinds with generated names, sizes 1..2^32, times 0..2^92 ns, heap levels up to 2^61 (small changes over big levels, low deviating more than high), all verdicts -- displayed & parsed back; reports of whole CRUD and regular analyses parsed & compared to the returned figures; nontrivial: something was used",
        assumptions: vec!["heap figures are shown from 32 bit floating point numbers (relative error under 4e-7)", "times under 2^92 ns (> 10^11 years)"],
        subs: vec![Sub::new("statistics", 100_000, 10_000_000, figures(), check_statistics), Sub::new("display", 1_500_000, 80_000_000, shown(), check_shown), Sub::new("crud", 12_000, 500_000, cost_case(), check_crud_report),
            Sub::new("regular", 100_000, 4_000_000, prop_oneof![charge_case(false), charge_case(true)], |c| match run_charge(c) { Ok(classes) => pass_multi(true, classes), Err(e) => fail(e) })] },
] }
