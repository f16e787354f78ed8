//! C16 .. C19 & C21: the regular (sync & async) runners, in the controlled world of [crate::sim]

use crate::analysis::log_u32;
use crate::reference::*;
use crate::report::*;
use crate::sim::*;
#[cfg(feature = "hooks")]
use big_o_test::verif as pm;
use big_o_test::RegularAsyncAnalyzerBuilder;
use big_o_test::{test_algorithm, BigOAlgorithmComplexity as C};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;
use std::time::Duration;
use vcommon::*;

// ---- costs aimed at verdicts ----------------------------------------------------------------------------------------

/// an amount for the second pass that should get the verdict `class` -- approximately: the oracle uses the amounts, not the aim
pub fn aimed(class: usize, u1: f64, n1: f64, n2: f64, jitter: f64) -> f64 {
    let g = predicted_growths(n1, n2);
    let exp = (n2 / n1 * u1.ln()).clamp(-600.0, 600.0).exp();
    let at = |i: usize| if i < 7 { g[i] * u1 } else { exp };
    match class {
        0 => u1 * (0.45 + 0.4 * jitter),
        16 => at(6).max(exp) * (1.3 + jitter),
        c if c % 2 == 1 => at(c / 2) * (1.0 + 0.09 * jitter),
        c => { let (lo, hi) = (at(c / 2 - 1) * 1.1, at(c / 2) * 0.9); if lo < hi { lo * (hi / lo).powf(0.5 + 0.49 * jitter) } else { lo * (1.0001 + 0.02 * jitter.abs()) } },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Costs { pub t1: u64, pub t2: u64, pub h1: u32, pub h2: u32 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DecisionCase { #[serde(default)] order: u64, n1: u32, n2: u32, time_limit: Option<usize>, space_limit: Option<usize>, retries: Option<u32>, spike_first: bool, attempts: Vec<Costs> }

const TIME_CAP: f64 = 1e17;
const HEAP_CAP: f64 = (1u64 << 30) as f64;

fn order() -> BoxedStrategy<u64> { prop_oneof![1 => Just(0u64), 2 => 1..=u64::MAX].boxed() }
fn decision_case(optional: bool) -> BoxedStrategy<DecisionCase> {
    let limit = |none_too: bool| (0usize..17, 0u8..4).prop_map(move |(l, none)| if none_too && none == 0 { None } else { Some(l) });
    let attempt = (0u8..10, 0usize..17, 0u8..20, 0usize..17, (-1.0f64..1.0, -1.0f64..1.0), 0.0f64..1.0, 0.0f64..1.0, 0u8..40);
    let late = prop_oneof![12_000 => Just(0u32), 400 => 1u32..40, 200 => 40u32..400, 1 => 400u32..3000];
    (log_u32(2, 1 << 30), 0u8..6, limit(optional), limit(optional), (0u32..7, 0u8..6, late), (any::<bool>(), order()), prop::collection::vec(attempt, 7)).prop_map(move |(n1, ratio, tl, sl, (r, no_r, late), (spike_first, order), attempts)| {
        let n2 = match ratio { 0..=2 => n1 * 2, 3 => n1 * 3, 4 => n1 + n1 / 2 + 1, _ => n1.saturating_mul(4) };
        let (retries, late) = if optional && no_r == 0 { (None, 0) } else { (Some(r + late), late as usize) };
        let n = retries.unwrap_or(0) as usize + 1 - late;
        let (f1, f2) = (n1 as f64, n2 as f64);
        let attempts = attempts.into_iter().take(n).map(|(tk, tx, sk, sx, (jt, js), ut, us, zero)| {
            let pick = |limit: Option<usize>, kind: u8, x: usize| match (limit, kind) {
                (None, _) => x,
                (Some(16), _) => x,
                (Some(l), 0) => l,                              // exactly the limit
                (Some(l), 1 | 2) => l + 1,                      // just worse
                (Some(l), 3..=6) => l + 1 + x % (16 - l),       // worse
                (Some(l), _) => x % (l + 1),                    // allowed
            };
            let tclass = pick(tl, tk, tx);
            // space is worse less often: it ends everything
            let sclass = pick(sl, match sk { 0..=3 => 0, 4 => 1, 5 => 3, _ => 9 }, sx);
            let t1 = 1e-6 * (1e8f64).powf(ut);
            let h1 = 16.0 * (200.0f64).powf(us);
            let t1 = (t1 * 1e9).round();
            let h1 = h1.round();
            let t2 = (aimed(tclass, t1 * 1e-9, f1, f2, jt) * 1e9).clamp(0.0, TIME_CAP).round();
            let h2 = aimed(sclass, h1, f1, f2, js).clamp(0.0, HEAP_CAP).round();
            let mut c = Costs { t1: t1 as u64, t2: t2 as u64, h1: h1 as u32, h2: h2 as u32 };
            match zero { 0 => { c.h1 = 0; c.h2 = 0 }, 1 => { c.t1 = 0; c.t2 = 0 }, 2 => { c.h1 = 0 }, 3 => { c.h2 = 0 }, _ => {} }
            c
        });
        // long histories start with slow attempts
        let mut attempts: Vec<Costs> = std::iter::repeat_n(Costs { t1: 1_000, t2: TIME_CAP as u64 / 1000, h1: 64, h2: 64 }, late).chain(attempts).collect();
        // no limit to speak of: the last attempt is a good one
        let retries = match retries { Some(r) if r > 0 && order % 16 == 3 => { let l = attempts.len() - 1; attempts[l] = Costs { t1: 1_000_000, t2: 1_000, h1: 64, h2: 1 }; Some(match order >> 5 & 15 { 0..=4 => u32::MAX, 5 | 6 => (1 << 16) + (order >> 9) as u32 % 2, 7 => 1 << 31, 8 => 1 << 24, 9 => (1 << 8) + late as u32, 10 => u32::MAX - 1, _ => order as u32 | 1 << 20 }) }, r => r };
        DecisionCase { order, n1, n2, time_limit: tl, space_limit: sl, retries, spike_first, attempts }
    }).boxed()
}

fn verdicts(n1: u32, n2: u32, c: &Costs) -> (Option<usize>, Option<usize>) {
    let secs = |ns: u64| Duration::from_nanos(ns).as_secs_f64();
    (growth_verdict(secs(c.t1), secs(c.t2), n1 as f64, n2 as f64, TOL), growth_verdict(c.h1 as f64, c.h2 as f64, n1 as f64, n2 as f64, TOL))
}

pub enum Ending { Accepted, Space(usize, C, C), Time(usize, C, C) }
/// what should happen: (ending, number of attempts)
fn expected_ending(c: &DecisionCase) -> Option<(Ending, usize)> {
    let retries = c.retries.unwrap_or(0) as usize;
    for a in 0..=retries {
        if a == c.attempts.len() { return None; }
        let (t, s) = verdicts(c.n1, c.n2, &c.attempts[a]);
        let (t, s) = (t?, s?);
        if let Some(l) = c.space_limit { if s > l { return Some((Ending::Space(a, ALL[l], ALL[s]), a + 1)); } }
        match c.time_limit {
            Some(l) if t > l => if a == retries { return Some((Ending::Time(a, ALL[l], ALL[t]), a + 1)); },
            _ => return Some((Ending::Accepted, a + 1)),
        }
    }
    unreachable!()
}
pub fn check_ending(result: Result<(), String>, ending: &Ending) -> Result<(), String> {
    match (result, ending) {
        (Ok(()), Ending::Accepted) => Ok(()),
        (Err(msg), Ending::Accepted) => Err(format!("should have been accepted, but failed with: {msg}")),
        (Ok(()), Ending::Space(a, l, v)) => Err(format!("accepted, but attempt #{a} has the space verdict {v:?} for a limit of {l:?}")),
        (Ok(()), Ending::Time(_, l, v)) => Err(format!("accepted, but even the last attempt has the time verdict {v:?} for a limit of {l:?}")),
        (Err(msg), Ending::Space(_, l, v)) => {
            ensure_r!(msg.to_uppercase().contains("SPACE") && names(&msg, *l) && names(&msg, *v), "the failure should name SPACE, the limit {l:?} and the verdict {v:?}: {msg}");
            Ok(())
        },
        (Err(msg), Ending::Time(_, l, v)) => {
            ensure_r!(msg.to_uppercase().contains("TIME") && names(&msg, *l) && names(&msg, *v), "the failure should name TIME, the limit {l:?} and the verdict {v:?}: {msg}");
            Ok(())
        },
    }
}
fn decision_classes(c: &DecisionCase, ending: &Ending, attempts: usize) -> Vec<String> {
    vec![match ending { Ending::Accepted => "accepted", Ending::Space(..) => "space-failure", Ending::Time(..) => "time-failure" }.to_string(),
         format!("attempts-{attempts}"), format!("limits-{}{}", if c.time_limit.is_some() { "T" } else { "-" }, if c.space_limit.is_some() { "S" } else { "-" })]
}

// ---- C16 ------------------------------------------------------------------------------------------------------------

fn check_sync_decision(c: &DecisionCase) -> Outcome {
    let Some((ending, attempts)) = expected_ending(c) else { return Outcome::Skip("edge of a band") };
    let log = Log::<(u8, u64)>::new(3 * c.attempts.len() + 40);
    let calls_so_far = [0; 3].map(AtomicU64::new);
    let world = World::enter(0);
    let pass = |stage: u8, t: fn(&Costs) -> (u64, u32)| {
        let calls = calls_so_far[stage as usize].fetch_add(1, SeqCst) as usize;
        log.push((stage, SLEPT.load(SeqCst)));
        let (ns, size) = t(&c.attempts[calls.min(c.attempts.len() - 1)]);
        if c.spike_first { spike(size as usize); charge(ns) } else { charge(ns); spike(size as usize) }
        calls as u32
    };
    let result = catch(|| test_algorithm(test_name(c.n1 as u64 ^ (c.n2 as u64) << 32), c.retries.unwrap_or(0),
        || { log.push((0, SLEPT.load(SeqCst))); charge(777); spike(1 << 20); },
        c.n1, || pass(1, |c| (c.t1, c.h1)), c.n2, || pass(2, |c| (c.t2, c.h2)),
        ALL[c.time_limit.unwrap()], ALL[c.space_limit.unwrap()]));
    drop(world);
    let events = log.all();
    let stages: Vec<u8> = events.iter().map(|x| x.0).collect();
    let expected: Vec<u8> = (0..attempts).flat_map(|_| [0, 1, 2]).collect();
    ensure!(stages == expected, "the stages (0: reset, 1 & 2: passes) were {stages:?}, but {attempts} attempt(s) of reset, pass 1 & pass 2 were due; outcome: {result:?}");
    for a in 1..attempts { ensure!(events[a * 3].1 > events[a * 3 - 1].1, "no pause before attempt #{a}"); }
    if let Err(e) = check_ending(result, &ending) { return fail(e); }
    pass_multi(attempts > 1 || !matches!(ending, Ending::Accepted), decision_classes(c, &ending, attempts))
}

// ---- async ----------------------------------------------------------------------------------------------------------

#[derive(Debug)]
struct Data { id: u64, seal: [u64; 2] }
impl Data { fn new(id: u64) -> Data { Data { id, seal: [id ^ 0x5eed, !id] } } }

#[derive(Clone, Copy, Debug, PartialEq)]
struct Event { stage: Stage, received: Option<u64>, returned: u64, attempt: usize }
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Stage { Reset, WarmUp, Pass1, Assert1, Pass2, Assert2 }

/// an async test: which stages are present & what each of them does in each attempt
struct AsyncPlan {
    reset: bool, warmup: bool, assert1: bool, assert2: bool,
    n1: u32, n2: u32, retries: Option<u32>, time_limit: Option<usize>, space_limit: Option<usize>,
    /// (attempt, stage, occurrence of the stage in the attempt) -> steps
    steps: Box<dyn Fn(usize, Stage, usize) -> Arc<Vec<Step>> + Send + Sync>,
    /// panics: (attempt, stage, occurrence, before the first suspension?)
    panic_at: Option<(usize, Stage, usize, bool)>,
    /// how many steps of each stage (8 bits per stage, at most) are run before the future is even returned
    eager: u64,
    /// the order the builder's methods are called in, and which ones were called before with something else (0: the natural one, none)
    order: u64,
}
struct AsyncRun { log: Arc<Log<Event>>, next_id: AtomicU64, second_passes: AtomicU64, plan: AsyncPlan }
impl AsyncRun {
    fn begin(&self, stage: Stage, received: Option<u64>) -> (Arc<Vec<Step>>, u64, bool, bool) {
        let attempt = (self.second_passes.load(SeqCst) as usize).saturating_sub(if stage == Stage::Assert2 { 1 } else { 0 });
        let occurrence = self.log.with(|l| l.iter().rev().take_while(|e| e.attempt == attempt || e.attempt + 1 == attempt).filter(|e| e.stage == stage && e.attempt == attempt).count());
        if stage == Stage::Pass2 { self.second_passes.fetch_add(1, SeqCst); }
        let id = if matches!(stage, Stage::Assert1 | Stage::Assert2) { 0 } else { self.next_id.fetch_add(1, SeqCst) + 1 };
        self.log.push(Event { stage, received, returned: id, attempt });
        let (early, late) = match self.plan.panic_at { Some((a, s, o, early)) if a == attempt && s == stage && o == occurrence => (early, !early), _ => (false, false) };
        ((self.plan.steps)(attempt, stage, occurrence), id, early, late)
    }
    /// runs the steps due before the stage's future is returned -- not all stages are `async` blocks from their first instruction on
    fn eagerly(&self, stage: Stage, steps: &[Step]) -> usize {
        let due = (self.plan.eager >> (stage as u64 * 8)) as u8 as usize % 8;
        let n = steps.iter().take(due).take_while(|s| !matches!(s, Step::Suspend(_))).count();
        run_steps(&steps[..n]);
        n
    }
    async fn body(steps: Arc<Vec<Step>>, done: usize, id: u64, late: bool) -> Data {
        run_steps_async(&steps[done..]).await;
        if late { vcommon::inject(id as u8); }
        Data::new(id)
    }
    fn run(self: &Arc<Self>, name: &str) -> Result<(), String> {
        catch(|| {
            let p = &self.plan;
            let check_seal = |d: &Data| if d.seal != [d.id ^ 0x5eed, !d.id] { panic!("RUNAWAY: corrupted data") };
            let stage_fn = |stage: Stage| {
                let me = Arc::clone(self);
                move |data: Option<Data>| {
                    if let Some(d) = &data { check_seal(d); }
                    let received = data.map(|d| d.id);
                    let (steps, id, early, late) = me.begin(stage, received);
                    if early { vcommon::inject(id as u8 ^ 1); }
                    let done = me.eagerly(stage, &steps);
                    AsyncRun::body(steps, done, id, late)
                }
            };
            let assert_fn = |stage: Stage| {
                let me = Arc::clone(self);
                move |data: &Data| {
                    check_seal(data);
                    let (steps, id, early, late) = me.begin(stage, Some(data.id));
                    if early { vcommon::inject(id as u8 ^ 1); }
                    let done = me.eagerly(stage, &steps);
                    async move { AsyncRun::body(steps, done, 0, late).await; }
                }
            };
            let mut b = RegularAsyncAnalyzerBuilder::new(name);
            let mut bits = p.order;
            let mut draw = |n: u64| if bits == 0 { 0 } else { bits = bits.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (bits >> 33) % n };
            let mut calls: Vec<u8> = vec![0, 1];
            if p.reset { calls.push(2); }
            if p.warmup { calls.push(3); }
            if p.assert1 { calls.push(4); }
            if p.assert2 { calls.push(5); }
            if p.retries.is_some() { calls.push(6); }
            if p.time_limit.is_some() { calls.push(7); }
            if p.space_limit.is_some() { calls.push(8); }
            if p.order != 0 {
                // what is given last counts; and other settings don't matter (no auxiliary space nor custom limit can be exceeded)
                let again: Vec<u8> = calls.iter().filter(|_| draw(6) == 0).map(|c| c + 100).collect();
                calls.extend(again);
                if draw(4) == 0 { calls.push(9); }
                if draw(4) == 0 { calls.push(10); }
                for i in (1..calls.len()).rev() { let j = draw(i as u64 + 1) as usize; calls.swap(i, j); }
                for i in 0..calls.len() { if calls[i] >= 100 { if let Some(j) = calls[..i].iter().position(|c| *c == calls[i] - 100) { calls.swap(i, j); } } }
            }
            for call in calls {
                let decoy = call >= 100;
                let x = draw(17) as usize;
                b = match call % 100 {
                    0 => b.first_pass(if decoy { 1 + x as u32 * 1000 } else { p.n1 }, stage_fn(if decoy { Stage::Pass2 } else { Stage::Pass1 })),
                    1 => b.second_pass(if decoy { 1 + x as u32 * 1000 } else { p.n2 }, stage_fn(if decoy { Stage::Pass1 } else { Stage::Pass2 })),
                    2 => b.with_reset_fn(stage_fn(if decoy { Stage::WarmUp } else { Stage::Reset })),
                    3 => b.warmup_pass(stage_fn(if decoy { Stage::Reset } else { Stage::WarmUp })),
                    4 => b.first_pass_assertion(assert_fn(if decoy { Stage::Assert2 } else { Stage::Assert1 })),
                    5 => b.second_pass_assertion(assert_fn(if decoy { Stage::Assert1 } else { Stage::Assert2 })),
                    6 => b.with_max_reattempts(if decoy { x as u32 } else { p.retries.unwrap() }),
                    7 => b.with_time_measurements(ALL[if decoy { x } else { p.time_limit.unwrap() }]),
                    8 => b.with_space_measurements(ALL[if decoy { x } else { p.space_limit.unwrap() }]),
                    9 => b.with_auxiliary_space_measurements(C::WorseThanExponential),
                    #[cfg(not(feature = "hooks"))]
                    _ => b,
                    #[cfg(feature = "hooks")]
                    _ => b.add_custom_measurement("custom", C::WorseThanExponential, "a measurement", |_| async { 1u32 }, |_, n| async move { pm::duration_measurement(Duration::from_nanos(n as u64)) }),
                };
            }
            block_on(b.test_algorithm())
        })
    }
    fn new(plan: AsyncPlan) -> Arc<AsyncRun> { Arc::new(AsyncRun { log: Log::new((plan.retries.unwrap_or(0).min(3_100) as usize + 1) * 8 + 64), next_id: AtomicU64::new(0), second_passes: AtomicU64::new(0), plan }) }
    /// the events expected of one attempt
    fn expected_attempt(p: &AsyncPlan) -> Vec<Stage> {
        let mut v = vec![];
        if p.reset { v.push(Stage::Reset); }
        if p.warmup { v.push(Stage::WarmUp); if p.reset { v.push(Stage::Reset); } }
        v.push(Stage::Pass1);
        if p.assert1 { v.push(Stage::Assert1); }
        if p.reset { v.push(Stage::Reset); }
        v.push(Stage::Pass2);
        if p.assert2 { v.push(Stage::Assert2); }
        v
    }
}

// ---- C17 ------------------------------------------------------------------------------------------------------------

fn check_async_decision(c: &DecisionCase) -> Outcome {
    let Some((ending, attempts)) = expected_ending(c) else { return Outcome::Skip("edge of a band") };
    let costs: Vec<[Arc<Vec<Step>>; 2]> = c.attempts.iter().map(|a| [(a.t1, a.h1), (a.t2, a.h2)].map(|(t, h)| Arc::new(
        if c.spike_first { vec![Step::Spike(h), Step::Suspend(vec![Step::Time(t)])] } else { vec![Step::Time(t), Step::Spike(h)] }))).collect();
    let noise = Arc::new(vec![Step::Time(999), Step::Spike(1 << 20)]);
    let with_others = c.n1 % 2 == 0;
    let run = AsyncRun::new(AsyncPlan { reset: with_others, warmup: with_others, assert1: with_others, assert2: with_others, n1: c.n1, n2: c.n2, retries: c.retries, time_limit: c.time_limit, space_limit: c.space_limit, panic_at: None, order: c.order, eager: (c.n2 as u64).wrapping_mul(0x9e3779b97f4a7c15),
        steps: Box::new(move |attempt, stage, _| {
            let costs = &costs[attempt.min(costs.len() - 1)];
            match stage { Stage::Pass1 => Arc::clone(&costs[0]), Stage::Pass2 => Arc::clone(&costs[1]), _ => Arc::clone(&noise) }
        }) });
    let world = World::enter(0);
    let result = run.run(test_name(c.n1 as u64 ^ (c.n2 as u64) << 32));
    drop(world);
    let passes: Vec<Stage> = run.log.all().iter().map(|e| e.stage).filter(|s| matches!(s, Stage::Pass1 | Stage::Pass2)).collect();
    let expected: Vec<Stage> = (0..attempts).flat_map(|_| [Stage::Pass1, Stage::Pass2]).collect();
    ensure!(passes == expected, "{attempts} attempt(s) were due, but the passes were {passes:?}; outcome: {result:?}");
    if let Err(e) = check_ending(result, &ending) { return fail(e); }
    pass_multi(attempts > 1 || !matches!(ending, Ending::Accepted) || c.time_limit.is_none() || c.space_limit.is_none(), decision_classes(c, &ending, attempts))
}

// ---- C18 ------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StagesCase { #[serde(default)] order: u64, #[serde(default)] sizes: Option<(u32, u32)>, reset: bool, warmup: bool, assert1: bool, assert2: bool, retries: Option<u32>, failures: u32, suspensions: Vec<u8>, assertion_fails: Option<(u32, bool, bool)> }

/// [number of suspensions][slow?]
fn simple_programs() -> Vec<[Arc<Vec<Step>>; 2]> {
    (0..4).map(|n| [1_000_000, 100_000_000].map(|ns| Arc::new((0..n).map(|_| Step::Suspend(vec![])).chain([Step::Time(ns)]).collect()))).collect()
}
fn stages_case() -> BoxedStrategy<StagesCase> {
    (order(), any::<[bool; 4]>(), prop::option::weighted(0.8, 0u32..5), 0u32..7, prop::collection::vec(0u8..4, 8), prop::option::weighted(0.25, (0u32..3, any::<bool>(), any::<bool>())), prop_oneof![40 => Just(0u32), 2 => 1u32..40, 1 => 40u32..300],
     prop::option::weighted(0.15, (log_u32(1, u32::MAX), log_u32(1, u32::MAX), 0u8..4).prop_map(|(n1, n2, how)| match how { 0 => (n1, n1), 1 => (n1.max(n2), n1.min(n2)), 2 => (1, n2), _ => (n1, n2) })))
        .prop_map(|(order, [reset, warmup, assert1, assert2], retries, failures, suspensions, assertion_fails, late, sizes)|
            // (in long histories, both the re-attempts and the failures are many)
            StagesCase { order, sizes, reset, warmup, assert1, assert2, retries: retries.map(|r| r + late), failures: failures + late, suspensions, assertion_fails }).boxed()
}
fn check_stages(c: &StagesCase) -> Outcome {
    let suspensions = c.suspensions.clone();
    // without limits, any sizes are to be accepted, whatever the verdicts
    let (failures, limit, sizes) = match c.sizes { None => (c.failures as usize, Some(1), (1000, 2000)), Some(sizes) => (0, None, sizes) };
    let programs = simple_programs();
    let run = AsyncRun::new(AsyncPlan { reset: c.reset, warmup: c.warmup, assert1: c.assert1, assert2: c.assert2, n1: sizes.0, n2: sizes.1, retries: c.retries, time_limit: limit, space_limit: limit, order: c.order, eager: c.order,
        panic_at: c.assertion_fails.map(|(a, first, early)| (a as usize, if first { Stage::Assert1 } else { Stage::Assert2 }, 0, early)),
        steps: Box::new(move |attempt, stage, occurrence| {
            let n = suspensions[(attempt * 5 + stage as usize * 3 + occurrence) % suspensions.len()];
            Arc::clone(&programs[n as usize][(stage == Stage::Pass2 && attempt < failures) as usize])
        }) });
    let world = World::enter(0);
    let result = run.run(test_name(c.order ^ c.suspensions.iter().map(|s| *s as u64).sum::<u64>()));
    drop(world);
    // model
    let retries = c.retries.unwrap_or(0) as usize;
    let mut attempts = (failures + 1).min(retries + 1);
    let mut should_fail = failures > retries;
    let mut expected: Vec<(Stage, Option<u64>, u64)> = vec![];
    let mut id = 0;
    let mut data: Option<u64> = None;
    'all: for a in 0..attempts {
        if !c.reset { data = None; }
        for stage in AsyncRun::expected_attempt(&run.plan) {
            if matches!(stage, Stage::Assert1 | Stage::Assert2) {
                expected.push((stage, data, 0));
                if run.plan.panic_at.is_some_and(|p| p.0 == a && p.1 == stage) { attempts = a + 1; should_fail = true; break 'all; }
            } else {
                id += 1;
                expected.push((stage, data, id));
                data = Some(id);
            }
        }
    }
    let observed: Vec<(Stage, Option<u64>, u64)> = run.log.all().iter().map(|e| (e.stage, e.received, e.returned)).collect();
    ensure!(observed == expected, "stages as (stage, data received, data returned): {observed:?} -- expected: {expected:?}; outcome: {result:?}");
    ensure!(result.is_err() == should_fail, "the test should have {}, but: {result:?}", if should_fail { "failed" } else { "passed" });
    pass_multi(true, vec![format!("attempts-{attempts}"), format!("sizes-{}", if c.sizes.is_none() { "usual" } else if sizes.0 < sizes.1 { "any" } else { "equal or less" }), format!("stages-{}{}{}{}", c.reset as u8, c.warmup as u8, c.assert1 as u8, c.assert2 as u8), if should_fail { "failed" } else { "passed" }.to_string()])
}

// ---- C19 ------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChargeCase { #[serde(default)] order: u64, #[serde(default)] eager: u64, asynchronous: bool, n1: u32, n2: u32, present: [bool; 4], baseline: Vec<u32>, programs: Vec<Vec<Step>> }

/// programs: reset, warm-up, pass 1, assertion 1, pass 2, assertion 2
pub fn charge_case(asynchronous: bool) -> BoxedStrategy<ChargeCase> {
    let p = move |n| steps(n, asynchronous);
    (if asynchronous { (order(), prop_oneof![1 => Just(0u64), 2 => any::<u64>()]).boxed() } else { Just((0, 0)).boxed() }, log_u32(1, u32::MAX), log_u32(1, u32::MAX), any::<[bool; 4]>(), prop::collection::vec(size_strategy(), 0..6), (p(5), p(5), p(9), p(4), p(9), p(4)))
        .prop_map(move |((order, eager), n1, n2, present, baseline, (r, w, p1, a1, p2, a2))| ChargeCase { order, eager, asynchronous, n1, n2, present, baseline, programs: vec![r, w, p1, a1, p2, a2] }).boxed()
}
/// runs it, comparing its report to the model; returns (some classes, number of steps charged)
pub fn run_charge(c: &ChargeCase) -> Result<Vec<String>, String> {
    let world = World::enter(0);
    let mut model = Model::default();
    for s in &c.baseline { keep(*s as usize); model.live.push(*s as u64); }
    let order: Vec<Stage>;
    let mut eager = false;
    let result;
    if c.asynchronous {
        let programs: Vec<Arc<Vec<Step>>> = c.programs.iter().map(|p| Arc::new(p.clone())).collect();
        let run = AsyncRun::new(AsyncPlan { reset: c.present[0], warmup: c.present[1], assert1: c.present[2], assert2: c.present[3], n1: c.n1, n2: c.n2, retries: None, time_limit: None, space_limit: None, panic_at: None, order: c.order, eager: c.eager,
            steps: Box::new(move |_, stage, _| Arc::clone(&programs[stage as usize])) });
        order = AsyncRun::expected_attempt(&run.plan);
        if c.eager != 0 { eager = true; }
        result = run.run("sut");
    } else {
        order = vec![Stage::Reset, Stage::Pass1, Stage::Pass2];
        result = catch(|| test_algorithm("sut", 0, || run_steps(&c.programs[0]), c.n1, || { run_steps(&c.programs[2]); 1 }, c.n2, || { run_steps(&c.programs[4]); 2 }, C::WorseThanExponential, C::WorseThanExponential));
    }
    let output = captured();
    drop(world);
    if let Err(e) = result { return Err(format!("unexpected failure: {e}")); }
    let mut charged = [Charged::default(); 2];
    for stage in order {
        let ch = model.run(&c.programs[stage as usize]);
        match stage { Stage::Pass1 => charged[0] = ch, Stage::Pass2 => charged[1] = ch, _ => {} }
    }
    let text = find_regular(&output, "sut").ok_or_else(|| format!("no report in: {output}"))?;
    let parsed = parse_analysis(text, "sut").map_err(|e| format!("{e}: {text}"))?;
    let facts = [0, 1].map(|i| PassFacts { time: Duration::from_nanos(charged[i].ns), up: charged[i].up, down: charged[i].down, net: charged[i].net, n: [c.n1, c.n2][i] as u64 });
    check_passes(&parsed, &facts).map_err(|e| format!("{e} -- passes should have been charged with {charged:?}; report: {text}"))?;
    // the verdicts call for more than one element
    let mut classes = vec![if c.asynchronous { "async".to_string() } else { "sync".to_string() }];
    if c.n1 >= 2 && c.n2 > c.n1 {
        let secs = |i: usize| Duration::from_nanos(charged[i].ns).as_secs_f64();
        if let Some(v) = growth_verdict(secs(0), secs(1), c.n1 as f64, c.n2 as f64, TOL) { ensure_r!(parsed.time_verdict == v, "time verdict {:?} where {:?} was due: {charged:?}; report: {text}", ALL[parsed.time_verdict], ALL[v]); }
        if let Some(v) = growth_verdict(charged[0].up as f64, charged[1].up as f64, c.n1 as f64, c.n2 as f64, TOL) { ensure_r!(parsed.space_verdict == v, "space verdict {:?} where {:?} was due: {charged:?}; report: {text}", ALL[parsed.space_verdict], ALL[v]); }
    }
    if eager { classes.push("eager-steps".to_string()); }
    for ch in &charged {
        if ch.down > 0 { classes.push("dips".to_string()); }
        if ch.up > ch.net.max(0) as u64 { classes.push("auxiliary".to_string()); }
        if ch.net < 0 { classes.push("frees".to_string()); }
    }
    classes.sort();
    classes.dedup();
    Ok(classes)
}
fn check_charge(c: &ChargeCase) -> Outcome {
    match run_charge(c) {
        Ok(classes) => pass_multi(classes.len() > 1, classes),
        Err(e) => fail(e),
    }
}

// ---- C21 ------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RegularFault { #[serde(default)] kind: u8, asynchronous: bool, present: [bool; 4], attempt: u32, stage: u8, late: bool, retries: u32, suspensions: u8, follow_up: ChargeCase, follow_up_async: ChargeCase }

fn regular_fault() -> BoxedStrategy<RegularFault> {
    ((any::<bool>(), any::<u8>()), any::<[bool; 4]>(), 0u32..3, any::<u8>(), any::<bool>(), 0u32..4, 0u8..4, charge_case(false), charge_case(true))
        .prop_map(|((asynchronous, kind), present, attempt, stage, late, extra, suspensions, follow_up, follow_up_async)|
            RegularFault { kind, asynchronous, present, attempt, stage, late, retries: attempt + extra, suspensions, follow_up, follow_up_async }).boxed()
}
fn check_regular_fault(c: &RegularFault) -> Outcome {
    // every attempt has a bad time -- so there are always retries
    let (result, observed, expected_len);
    if c.asynchronous {
        let programs = simple_programs()[c.suspensions as usize % 4].clone();
        let mut plan = AsyncPlan { reset: c.present[0], warmup: c.present[1], assert1: c.present[2], assert2: c.present[3], n1: 1000, n2: 2000, retries: Some(c.retries), time_limit: Some(1), space_limit: Some(16), panic_at: None, order: c.follow_up_async.order, eager: 0,
            steps: Box::new(move |_, stage, _| Arc::clone(&programs[(stage == Stage::Pass2) as usize])) };
        let order = AsyncRun::expected_attempt(&plan);
        let at = c.stage as usize % order.len();
        let occurrence = order[..at].iter().filter(|s| **s == order[at]).count();
        plan.panic_at = Some((c.attempt as usize, order[at], occurrence, !c.late));
        let run = AsyncRun::new(plan);
        let world = World::enter(0);
        result = run.run("sut");
        drop(world);
        observed = run.log.all().len();
        expected_len = c.attempt as usize * order.len() + at + 1;
    } else {
        let log = Log::<u8>::new(64);
        let at = c.stage as usize % 3;
        let event = |stage: u8| {
            let attempt = log.with(|l| l.iter().filter(|s| **s == stage).count());
            log.push(stage);
            let due = stage as usize == at && attempt == c.attempt as usize;
            if due && !c.late { vcommon::inject(c.kind); }
            charge(if stage == 2 { 100_000_000 } else { 1_000_000 });
            keep(1000);
            if due { vcommon::inject(c.kind); }
            7
        };
        let world = World::enter(0);
        result = catch(|| test_algorithm("sut", c.retries, || { event(0); }, 1000, || event(1), 2000, || event(2), C::O1, C::WorseThanExponential));
        drop(world);
        observed = log.len();
        expected_len = c.attempt as usize * 3 + at + 1;
    }
    ensure!(result.is_err(), "a user function panicked, but the test passed");
    ensure!(observed == expected_len, "{observed} stages ran, but the panic was at stage #{expected_len}: nothing should run after it; outcome: {result:?}");
    for f in [&c.follow_up, &c.follow_up_async] {
        if let Err(e) = run_charge(f) { return fail(format!("the analysis following a panic is affected by it: {e}")); }
    }
    pass_multi(true, vec![if c.asynchronous { "async" } else { "sync" }.to_string(), format!("attempt-{}", c.attempt), format!("late-{}", c.late), if c.asynchronous { "async".to_string() } else { format!("payload-{}", c.kind % 4) }])
}
pub fn fault_sub() -> Sub { Sub::new("regular", 100_000, 4_000_000, regular_fault(), check_regular_fault) }
pub fn charge_subs() -> Vec<Sub> {
    vec![Sub::new("sync", 250_000, 12_000_000, charge_case(false), check_charge), Sub::new("async", 250_000, 12_000_000, charge_case(true), check_charge)]
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C16", rule: "attempts of generated (time, heap) costs aimed at every verdict around the limits, limits over the whole scale, 0..6 (sometimes up to 400, rarely up to 3000) retries, any sizes, through the public test function under a virtual clock; nontrivial: more than one attempt or a rejection",
        assumptions: vec!["time only passes when the user functions say so: clock_gettime & sleeps of the process are virtual", "cases with a verdict within 1e-9 of an edge of a band are not decided"],
        subs: vec![Sub::new("decisions", 2_000_000, 100_000_000, decision_case(false), check_sync_decision)] },
    Prop { id: "C17", rule: "as C16, with each limit and the number of re-attempts present or absent, through the public async builder on a tokio runtime with paused time; nontrivial: more than one attempt, a rejection or an absent limit",
        assumptions: vec!["time only passes when the user functions say so: clock_gettime & sleeps of the process are virtual", "cases with a verdict within 1e-9 of an edge of a band are not decided"],
        subs: vec![Sub::new("decisions", 1_500_000, 80_000_000, decision_case(true), check_async_decision)] },
    Prop { id: "C18", rule: "all subsets of the optional stages, re-attempts unset or 0..4 (sometimes up to 300), 0..6 (or up to 300) failing attempts, 0..3 suspensions per stage, optionally a failing assertion; data tracked by unique ids; nontrivial: every case -- the whole log is compared",
        assumptions: vec!["stages are run on a current-thread tokio runtime with paused time"],
        subs: vec![Sub::new("stages", 1_200_000, 60_000_000, stages_case(), check_stages)] },
] }
