//! C01, C02 & C03: verdicts of the analysis functions

use crate::reference::*;
use big_o_test::low_level_analysis::{*, space_analysis::*, time_analysis::*, types::*};
use big_o_test::BigOAlgorithmComplexity as C;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vcommon::*;

pub fn space_pass(before: u64, used: u64, below: u64, after: u64) -> BigOSpacePassMeasurements {
    let max = before + used;
    let min = before - below.min(before);
    BigOSpacePassMeasurements { used_memory_before: before as usize, max_used_memory: max as usize, min_used_memory: min as usize, used_memory_after: (min + after % (max - min + 1)) as usize }
}
pub fn copy_space(s: &BigOSpaceMeasurements) -> BigOSpaceMeasurements {
    BigOSpaceMeasurements { pass_1_measurements: s.pass_1_measurements, pass_2_measurements: s.pass_2_measurements }
}
pub fn dur(ns: u128) -> Duration { Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32) }

/// the analysis functions
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fun { Regular, ConstantSet, ConstantSetSwapped, Raw }

fn time_verdict(fun: Fun, t1: Duration, t2: Duration, n1: u32, n2: u32) -> C {
    let m = BigOTimeMeasurements { pass_1_measurements: t1, pass_2_measurements: t2 };
    match fun {
        Fun::Regular => analyse_time_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, &m),
        Fun::ConstantSet => analyse_time_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: n2 / 3 + 1 }, &m),
        Fun::ConstantSetSwapped => analyse_time_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n2, pass_2_set_size: n1, repetitions: n1 }, &m),
        Fun::Raw => analyse_complexity(t1.as_secs_f64(), t2.as_secs_f64(), n1 as f64, n2 as f64),
    }
}
fn space_verdict(fun: Fun, m: &BigOSpaceMeasurements, n1: u32, n2: u32) -> C {
    match fun {
        Fun::Regular => analyse_space_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, m),
        Fun::ConstantSet => analyse_space_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: n2 / 3 + 1 }, m),
        Fun::ConstantSetSwapped => analyse_space_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n2, pass_2_set_size: n1, repetitions: n1 }, m),
        Fun::Raw => analyse_complexity((m.pass_1_measurements.max_used_memory - m.pass_1_measurements.used_memory_before) as f64,
                                       (m.pass_2_measurements.max_used_memory - m.pass_2_measurements.used_memory_before) as f64, n1 as f64, n2 as f64),
    }
}
fn resizing_time(t1: Duration, t2: Duration, n: u32) -> C {
    analyse_time_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n }, &BigOTimeMeasurements { pass_1_measurements: t1, pass_2_measurements: t2 })
}
fn resizing_space(m: &BigOSpaceMeasurements, n: u32) -> C {
    analyse_space_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n }, m)
}

pub fn fun() -> impl Strategy<Value = Fun> { prop_oneof![Just(Fun::Regular), Just(Fun::ConstantSet), Just(Fun::ConstantSetSwapped), Just(Fun::Raw)] }

/// set sizes, 2 <= n1 < n2: log-uniform n1; n2 at any ratio, with the usual (x2, x10, +1) more frequent
pub fn sizes() -> BoxedStrategy<(u32, u32)> {
    (log_u32(2, u32::MAX - 1), 0u32..12, 0.0f64..1.0).prop_map(|(n1, kind, x)| {
        let max = u32::MAX as f64;
        let n2 = match kind {
            0..=3 => n1 as f64 * 2.0,
            4 => n1 as f64 * 10.0,
            5 => n1 as f64 + 1.0,
            6 => n1 as f64 * 4.0,
            7 | 8 => n1 as f64 * (1.0 + 9.0 * x),
            _ => n1 as f64 * (max / n1 as f64).powf(x),
        };
        (n1, n2.min(max).max(n1 as f64 + 1.0) as u32)
    }).boxed()
}
pub fn log_u32(lo: u32, hi: u32) -> impl Strategy<Value = u32> + Clone {
    prop_oneof![
        12 => (0.0f64..1.0).prop_map(move |x| ((lo as f64) * (hi as f64 / lo as f64).powf(x)).clamp(lo as f64, hi as f64) as u32),
        1 => (0u32..32, -1i64..2).prop_map(move |(b, d)| ((1i64 << b) + d).clamp(lo as i64, hi as i64) as u32),
    ]
}
pub fn log_u128(lo: u128, hi: u128) -> impl Strategy<Value = u128> + Clone {
    (0.0f64..1.0).prop_map(move |x| ((lo as f64) * (hi as f64 / lo as f64).powf(x)).clamp(lo as f64, hi as f64) as u128)
}

/// where the observed growth should fall: (class index 0..8, offset in tolerances around it)
#[derive(Clone, Copy, Debug)]
struct Aim { class: usize, offset: f64, zero: u8 }
fn aim() -> impl Strategy<Value = Aim> {
    (0usize..9, prop_oneof![
        3 => -1.0f64..1.0,
        2 => (prop_oneof![Just(-1.0f64), Just(1.0)], prop_oneof![Just(1e-7f64), Just(1e-5), Just(1e-3), Just(1e-2)], any::<bool>()).prop_map(|(s, d, o)| s * if o { 1.0 + d } else { 1.0 - d }),
        2 => -9.9f64..30.0,
        1 => Just(0.0),
    ], 0u8..120).prop_map(|(class, offset, zero)| Aim { class, offset, zero })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GrowthCase { fun: Fun, n1: u32, n2: u32, t1_ns: u128, t2_ns: u128, before: (u64, u64), used: (u64, u64), below: (u64, u64), after: (u64, u64) }

/// picks (u1, u2) so that u2/u1 falls where `aim`ed, if possible within [1, max]. `unit` converts integers to the analysed unit
fn pick(a: &Aim, n1: f64, n2: f64, u1: u128, max: u128, unit: f64) -> (u128, u128) {
    match a.zero { 0 => return (0, 0), 1 => return (0, u1), 2 => return (u1, 0), _ => () }
    let ratio = n2 / n1;
    if a.class >= 7 {
        // u2 = u1^ratio * (1 + tol*offset) -- choosing u1 so both fit
        let top = max as f64 * unit;
        let lo = (unit.ln() / ratio).max(unit.ln());
        let hi = top.ln() / ratio;
        let x = (u1 as f64).ln() / (max as f64).ln();
        let u1f = (lo + (hi - lo) * x).exp().max(unit);
        let u2f = u1f.powf(ratio) * (1.0 + TOL * a.offset).max(0.0);
        return (((u1f / unit).round() as u128).clamp(1, max), ((u2f / unit).round() as u128).clamp(1, max));
    }
    let g = predicted_growths(n1, n2)[a.class] * (1.0 + TOL * a.offset).max(1e-3);
    let mut u1 = u1 as f64;
    if u1 * g > max as f64 { u1 = (max as f64 / g).max(1.0).floor(); }
    ((u1 as u128).max(1), ((u1.floor().max(1.0) * g).round() as u128).min(max))
}

const MAX_NS: u128 = 10_000_000_000 * 1_000_000_000;   // ~300 years
const MAX_BYTES: u128 = 1 << 60;

fn growth_case() -> impl Strategy<Value = GrowthCase> {
    (fun(), sizes(), aim(), aim(), log_u128(1, MAX_NS), log_u128(1, MAX_BYTES), baselines()).prop_map(|(fun, (n1, n2), ta, sa, t1, s1, (before, below, after))| {
        let (t1_ns, t2_ns) = pick(&ta, n1 as f64, n2 as f64, t1, MAX_NS, 1e-9);
        let (s1, s2) = pick(&sa, n1 as f64, n2 as f64, s1, MAX_BYTES, 1.0);
        GrowthCase { fun, n1, n2, t1_ns, t2_ns, before, used: (s1 as u64, s2 as u64), below, after }
    })
}
fn level() -> impl Strategy<Value = u64> + Clone { prop_oneof![1 => Just(0u64), 1 => Just(1u64 << 60), 4 => (0u32..61, any::<u64>()).prop_map(|(b, x)| x & ((1u64 << b) - 1))] }
fn baselines() -> impl Strategy<Value = ((u64, u64), (u64, u64), (u64, u64))> {
    ((level(), level()), (level(), level()), (any::<u64>(), any::<u64>()))
}

fn check_growth(c: &GrowthCase) -> Outcome {
    let (t1, t2) = (dur(c.t1_ns), dur(c.t2_ns));
    let m = BigOSpaceMeasurements {
        pass_1_measurements: space_pass(c.before.0, c.used.0, c.below.0, c.after.0),
        pass_2_measurements: space_pass(c.before.1, c.used.1, c.below.1, c.after.1),
    };
    let mut classes = vec![];
    let te = growth_verdict(c.t1_ns as f64 * 1e-9, c.t2_ns as f64 * 1e-9, c.n1 as f64, c.n2 as f64, TOL);
    let se = growth_verdict(c.used.0 as f64, c.used.1 as f64, c.n1 as f64, c.n2 as f64, TOL);
    for (what, expected, observed) in [("time", te, time_verdict(c.fun, t1, t2, c.n1, c.n2)), ("space", se, space_verdict(c.fun, &m, c.n1, c.n2))] {
        if let Some(e) = expected {
            ensure!(rank(observed) == e, "{:?} {what} verdict for (n1, n2) = ({}, {}), {what} = {:?}: expected {:?}, got {observed:?}", c.fun, c.n1, c.n2,
                    if what == "time" { (format!("{t1:?}"), format!("{t2:?}")) } else { (format!("{}b", c.used.0), format!("{}b", c.used.1)) }, ALL[e]);
            classes.push(format!("{what}/{observed:?}"));
        }
    }
    if classes.is_empty() { Outcome::Skip("on the edge of a band") } else { pass_multi(true, classes) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ResizingCase { n: u32, t1_ns: u128, t2_ns: u128, before: (u64, u64), used: (u64, u64), below: (u64, u64), after: (u64, u64), raw: bool }

fn resizing_pick() -> impl Strategy<Value = (usize, f64, u8)> {
    (0usize..4, prop_oneof![
        3 => -1.2f64..1.2,
        2 => (prop_oneof![Just(-1.0f64), Just(1.0), Just(0.0), Just(-0.909090)], prop_oneof![Just(1e-6f64), Just(1e-4), Just(1e-2)], any::<bool>()).prop_map(|(s, d, o)| if o { s + d } else { s - d }),
        2 => -9.9f64..30.0,
    ], 0u8..120)
}
fn resize(p: (usize, f64, u8), n: f64, u1: u128, max: u128) -> (u128, u128) {
    match p.2 { 0 => return (0, 0), 1 => return (0, u1), 2 => return (u1, 0), _ => () }
    let g = (3.0 * n).ln() / n.ln();
    let r = [1.0, g, 3.0, (g + 3.0) / 2.0][p.0] * (1.0 + TOL * p.1).max(1e-3);
    let u1 = if u1 as f64 * r > max as f64 { (max as f64 / r).floor() } else { u1 as f64 };
    ((u1 as u128).max(1), ((u1.floor().max(1.0) * r).round() as u128).min(max))
}
fn resizing_case() -> impl Strategy<Value = ResizingCase> {
    (prop_oneof![5 => log_u32(2, u32::MAX), 2 => 2u32..64, 1 => any::<u32>().prop_map(|n| n.max(2))], resizing_pick(), resizing_pick(), log_u128(1, MAX_NS), log_u128(1, MAX_BYTES), baselines(), any::<bool>()).prop_map(|(n, tp, sp, t1, s1, (before, below, after), raw)| {
        let (t1_ns, t2_ns) = resize(tp, n as f64, t1, MAX_NS);
        let (s1, s2) = resize(sp, n as f64, s1, MAX_BYTES);
        ResizingCase { n, t1_ns, t2_ns, before, used: (s1 as u64, s2 as u64), below, after, raw }
    })
}
fn check_resizing(c: &ResizingCase) -> Outcome {
    let (t1, t2) = (dur(c.t1_ns), dur(c.t2_ns));
    let m = BigOSpaceMeasurements {
        pass_1_measurements: space_pass(c.before.0, c.used.0, c.below.0, c.after.0),
        pass_2_measurements: space_pass(c.before.1, c.used.1, c.below.1, c.after.1),
    };
    let te = resizing_verdict(c.t1_ns as f64 * 1e-9, c.t2_ns as f64 * 1e-9, c.n as f64, TOL);
    let se = resizing_verdict(c.used.0 as f64, c.used.1 as f64, c.n as f64, TOL);
    let (to, so) = if c.raw { (analyse_set_resizing_iterator_complexity(t1.as_secs_f64(), t2.as_secs_f64(), c.n as f64), analyse_set_resizing_iterator_complexity(c.used.0 as f64, c.used.1 as f64, c.n as f64)) }
                   else { (resizing_time(t1, t2, c.n), resizing_space(&m, c.n)) };
    let mut classes = vec![];
    for (what, expected, observed) in [("time", te, to), ("space", se, so)] {
        if let Some(e) = expected {
            ensure!(rank(observed) == e, "set resizing {what} verdict for n = {}, {what} = {:?}: expected {:?}, got {observed:?}", c.n,
                    if what == "time" { (format!("{t1:?}"), format!("{t2:?}")) } else { (format!("{}b", c.used.0), format!("{}b", c.used.1)) }, ALL[e]);
            classes.push(format!("{what}/{observed:?}"));
        }
    }
    if classes.is_empty() { Outcome::Skip("on the edge of a band") } else { pass_multi(true, classes) }
}

// C03
//////

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LawCase { fun: Fun, resizing: bool, space: bool, n1: u32, n2: u32, u1: u128, u2: u128, bump: u128, factor: u32, before: (u64, u64), shift: u64, below: (u64, u64), after: (u64, u64) }

fn law_case() -> impl Strategy<Value = LawCase> {
    let zeroable = |hi: u128| prop_oneof![1 => Just(0u128), 12 => log_u128(1, hi)];
    ((fun(), any::<bool>(), any::<bool>()), sizes(), (aim(), resizing_pick(), 0u8..4, zeroable(1 << 59), zeroable(1 << 59)), (log_u128(1, 1 << 59), 1u32..2000), baselines(), level()).prop_map(
        |((fun, resizing, space), (n1, n2), (a, rp, independent, x, y), (bump, factor), (before, below, after), shift)| {
            let (u1, u2) = if independent == 0 { (x, y) }
                else if resizing { resize(rp, n1 as f64, x, 1 << 59) }
                else { pick(&a, n1 as f64, n2 as f64, x, 1 << 59, if space { 1.0 } else { 1e-9 }) };
            // bumps of any relative size
            let bump = if bump % 3 == 0 { bump } else { (u2.max(1) / (1 + bump % 1000)).max(1) };
            LawCase { fun, resizing, space, n1, n2, u1, u2, bump, factor, before, shift, below, after }
        })
}
impl LawCase {
    fn verdict(&self, u1: u128, u2: u128, before: (u64, u64)) -> usize {
        rank(if self.space {
            let m = BigOSpaceMeasurements { pass_1_measurements: space_pass(before.0, u1 as u64, self.below.0, self.after.0), pass_2_measurements: space_pass(before.1, u2 as u64, self.below.1, self.after.1) };
            if self.resizing { resizing_space(&m, self.n1) } else { space_verdict(self.fun, &m, self.n1, self.n2) }
        } else if self.resizing { resizing_time(dur(u1), dur(u2), self.n1) } else { time_verdict(self.fun, dur(u1), dur(u2), self.n1, self.n2) })
    }
    fn margin(&self, u1: u128, u2: u128) -> f64 {
        let unit = if self.space { 1.0 } else { 1e-9 };
        if self.resizing { resizing_margin(u1 as f64 * unit, u2 as f64 * unit, self.n1 as f64, TOL) } else { growth_margin(u1 as f64 * unit, u2 as f64 * unit, self.n1 as f64, self.n2 as f64, TOL) }
    }
}
fn check_laws(c: &LawCase) -> Outcome {
    let v = c.verdict(c.u1, c.u2, c.before);
    let describe = |u1: u128, u2: u128| format!("{} (resizing: {}, fun: {:?}) n=({}, {}) u=({u1}, {u2})", if c.space {"space"} else {"time"}, c.resizing, c.fun, c.n1, c.n2);
    ensure!(v == c.verdict(c.u1, c.u2, c.before), "the same input got two verdicts: {}", describe(c.u1, c.u2));
    let mut classes = vec![];
    // monotone in the second
    let more2 = c.verdict(c.u1, c.u2 + c.bump, c.before);
    ensure!(more2 >= v, "raising the second measurement improved the verdict: {} is {:?}, but {} is {:?}", describe(c.u1, c.u2), ALL[v], describe(c.u1, c.u2 + c.bump), ALL[more2]);
    classes.push(if more2 > v {"second raised: worse"} else {"second raised: same"}.to_string());
    // monotone in the first, below the exponential classes
    let more1 = c.verdict(c.u1 + c.bump, c.u2, c.before);
    if v <= 13 {
        ensure!(more1 <= v, "raising the first measurement worsened the verdict: {} is {:?}, but {} is {:?}", describe(c.u1, c.u2), ALL[v], describe(c.u1 + c.bump, c.u2), ALL[more1]);
        classes.push(if more1 < v {"first raised: better"} else {"first raised: same"}.to_string());
    }
    // unit free
    let k = c.factor as u128;
    if v <= 13 && c.u1.max(c.u2) * k < (1 << 60) && c.margin(c.u1, c.u2) > 1e-9 && c.margin(c.u1 * k, c.u2 * k) > 1e-9 {
        let scaled = c.verdict(c.u1 * k, c.u2 * k, c.before);
        ensure!(scaled == v, "scaling both measurements by {k} changed the verdict from {:?} to {:?}: {}", ALL[v], ALL[scaled], describe(c.u1, c.u2));
        classes.push("scaled".to_string());
    }
    // baseline free
    if c.space {
        let shifted = c.verdict(c.u1, c.u2, (c.before.0 + c.shift, c.before.1));
        ensure!(shifted == v, "raising all levels of the first pass by {} changed the verdict from {:?} to {:?}: {}", c.shift, ALL[v], ALL[shifted], describe(c.u1, c.u2));
        let shifted = c.verdict(c.u1, c.u2, (c.before.0, c.before.1 + c.shift));
        ensure!(shifted == v, "raising all levels of the second pass by {} changed the verdict from {:?} to {:?}: {}", c.shift, ALL[v], ALL[shifted], describe(c.u1, c.u2));
        classes.push("shifted".to_string());
    }
    if c.u1 == 0 && c.u2 == 0 {
        ensure!(v == 1, "nothing used on both passes should be O1, got {:?}: {}", ALL[v], describe(c.u1, c.u2));
        classes.push("nothing used".to_string());
    }
    pass_multi(true, classes)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TotalCase { fun: Fun, n1: u32, n2: u32, u: (u64, u64), before: (u64, u64), t: (u64, u32, u64, u32) }
fn total_case() -> impl Strategy<Value = TotalCase> {
    let n = || prop_oneof![1 => Just(0u32), 1 => Just(1u32), 1 => Just(u32::MAX), 4 => any::<u32>(), 4 => 0u32..100];
    let secs = || prop_oneof![Just(0u64), 0u64..100, any::<u64>()];
    (fun(), n(), n(), (level(), level()), (prop_oneof![level(), Just(u64::MAX - (1 << 61))], level()), (secs(), 0u32..1_000_000_000, secs(), 0u32..1_000_000_000)).prop_map(|(fun, n1, n2, u, before, t)| TotalCase { fun, n1, n2, u, before, t })
}
fn check_total(c: &TotalCase) -> Outcome {
    let m = BigOSpaceMeasurements { pass_1_measurements: space_pass(c.before.0, c.u.0, 0, 0), pass_2_measurements: space_pass(c.before.1, c.u.1, 0, 0) };
    let (t1, t2) = (Duration::new(c.t.0, c.t.1), Duration::new(c.t.2, c.t.3));
    let all = || [time_verdict(c.fun, t1, t2, c.n1, c.n2), space_verdict(c.fun, &m, c.n1, c.n2), resizing_time(t1, t2, c.n1), resizing_space(&m, c.n1)];
    ensure!(all() == all(), "the same input got two verdicts");
    pass(c.n1 != c.n2, "total")
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C01", rule: "two measurements (time & heap) at two set sizes: sizes log-uniform in 2..2^32 at any ratio, growth aimed at a class and at an offset around its band (inside, next to its edges, far), zero usage included; nontrivial: at least one of the two verdicts is decided by the reference classifier (not within 1e-9 of a band's edge)",
        assumptions: vec!["verdicts within a relative 1e-9 of the edge of a band are not decided", "10% tolerance build (C22 covers the 25% one)"],
        subs: vec![Sub::new("growth", 5_000_000, 200_000_000, growth_case(), check_growth)] },
    Prop { id: "C02", rule: "two measurements (time & heap) of a set resizing algorithm: n log-uniform in 2..2^32 (small n more frequent), growth aimed at each band and its edges; nontrivial: at least one of the two verdicts is decided by the reference classifier",
        assumptions: vec!["verdicts within a relative 1e-9 of the edge of a band are not decided", "10% tolerance build (C22 covers the 25% one)"],
        subs: vec![Sub::new("resizing", 5_000_000, 200_000_000, resizing_case(), check_resizing)] },
    Prop { id: "C03", rule: "pairs of related measurements (one raised, both scaled, all levels shifted, nothing used) for every analysis function; nontrivial: every case -- each one compares at least 3 related runs",
        assumptions: vec!["scaling is only compared when both sides are at least 1e-9 away from the edge of a band"],
        subs: vec![Sub::new("laws", 3_500_000, 150_000_000, law_case(), check_laws), Sub::new("total", 500_000, 20_000_000, total_case(), check_total)] },
] }
