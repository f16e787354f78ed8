//! C24: custom measurers

use crate::reference::*;
use crate::sim::*;
use big_o_test::verif::*;
use big_o_test::RegularAsyncAnalyzerBuilder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;
use vcommon::*;

type Data = u64;
type Boxed = Box<dyn CustomMeasurerExecutor<Data> + Send>;

/// what a step saw: (measurer, after?, data, value returned by 'before' / received by 'after')
#[derive(Clone, Copy, Debug, PartialEq)]
struct Seen { measurer: u16, after: bool, data: Option<Data>, value: u64, began: bool }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Measurer { name: String, description: String, complexity: usize, suspend_before: u8, suspend_after: u8 }
fn measurer() -> BoxedStrategy<Measurer> {
    ("[a-cΔ \\n]{0,3}", "\\PC{0,6}", 0usize..17, 0u8..3, 0u8..3).prop_map(|(name, description, complexity, suspend_before, suspend_after)| Measurer { name, description, complexity, suspend_before, suspend_after }).boxed()
}

async fn pause(times: u8) { for _ in 0..times { suspend(&[]).await; } }

struct Recorder { log: Arc<Log<Seen>>, values: Arc<AtomicU64> }
impl Recorder {
    fn new() -> Recorder { Recorder { log: Log::new(4096), values: Arc::new(AtomicU64::new(0)) } }
    fn before(&self, i: u16, suspensions: u8) -> impl FnMut(Option<&Data>) -> std::pin::Pin<Box<dyn std::future::Future<Output = u64> + Send>> + Send + Sync + 'static {
        let (log, values) = (self.log.clone(), self.values.clone());
        move |data: Option<&Data>| {
            let value = values.fetch_add(1, SeqCst) * 7 + 1000;
            log.push(Seen { measurer: i, after: false, data: data.copied(), value, began: true });
            let log = log.clone();
            let data = data.copied();
            Box::pin(async move {
                pause(suspensions).await;
                log.push(Seen { measurer: i, after: false, data, value, began: false });
                value
            })
        }
    }
    /// measures `value received` + index / 100
    fn after(&self, i: u16, suspensions: u8) -> impl FnMut(Option<&Data>, u64) -> std::pin::Pin<Box<dyn std::future::Future<Output = PresentableMeasurement> + Send>> + Send + Sync + 'static {
        let log = self.log.clone();
        move |data: Option<&Data>, value: u64| {
            log.push(Seen { measurer: i, after: true, data: data.copied(), value, began: true });
            let log = log.clone();
            let data = data.copied();
            Box::pin(async move {
                pause(suspensions).await;
                log.push(Seen { measurer: i, after: true, data, value, began: false });
                custom_unit_measurement(measured(i, value), "u")
            })
        }
    }
}
fn measured(i: u16, value: u64) -> f64 { value as f64 + i as f64 / 100.0 }

// ---- the measurers alone --------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Event { AllBefore(Option<Data>), AllAfter(Option<Data>), Before(u8, Option<Data>), After(u8, Option<Data>) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Direct { measurers: Vec<Measurer>, events: Vec<Event> }
fn direct() -> BoxedStrategy<Direct> {
    let data = || prop::option::of(any::<u64>());
    // mostly whole rounds
    let round = (data(), data()).prop_map(|(a, b)| vec![Event::AllBefore(a), Event::AllAfter(b)]);
    let odd = prop_oneof![data().prop_map(Event::AllBefore), data().prop_map(Event::AllAfter), (any::<u8>(), data()).prop_map(|(i, d)| Event::Before(i, d)), (any::<u8>(), data()).prop_map(|(i, d)| Event::After(i, d))].prop_map(|e| vec![e]);
    (prop::collection::vec(measurer(), 0..7), prop::collection::vec(prop_oneof![2 => round, 1 => odd], 1..6)).prop_map(|(measurers, events)| Direct { measurers, events: events.concat() }).boxed()
}
fn check_direct(c: &Direct) -> Outcome {
    let recorder = Recorder::new();
    let mut executors: Vec<Boxed> = c.measurers.iter().enumerate().map(|(i, m)| Box::new(CustomMeasurer::new(m.name.clone(), ALL[m.complexity], m.description.clone(),
        recorder.before(i as u16, m.suspend_before), recorder.after(i as u16, m.suspend_after))) as Boxed).collect();
    let k = executors.len();
    // what the last 'before' of each measurer returned, if not consumed yet
    let mut pending: Vec<Option<u64>> = vec![None; k];
    let mut seen = 0;
    let mut classes = vec![format!("measurers-{k}")];
    let world = World::enter(0);
    for event in &c.events {
        let (all_before, data, which): (Option<bool>, _, Vec<usize>) = match event {
            Event::AllBefore(d) => (Some(true), *d, (0..k).rev().collect()),
            Event::AllAfter(d) => (Some(false), *d, (0..k).collect()),
            Event::Before(i, d) | Event::After(i, d) => { if k == 0 { continue; } (None, *d, vec![*i as usize % k]) },
        };
        let after = matches!(event, Event::AllAfter(_) | Event::After(..));
        let result = catch(|| block_on(async {
            match (all_before, after) {
                (Some(true), _) => { measure_all_before_event(data.as_ref(), &mut executors).await; None },
                (Some(false), _) => Some(measure_all_after_event(data.as_ref(), &mut executors).await),
                (None, false) => { executors[which[0]].measure_before_event(data.as_ref()).await; None },
                (None, true) => { let m = executors[which[0]].measure_after_event(data.as_ref()).await; Some(vec![executors[which[0]].as_custom_measurement(m)]) },
            }
        }));
        let events: Vec<Seen> = recorder.log.with(|l| l[seen..].to_vec());
        seen += events.len();
        if after {
            // up to the first one with no 'before'
            let refused = which.iter().position(|i| pending[*i].is_none());
            let ran = &which[..refused.unwrap_or(which.len())];
            let expected: Vec<Seen> = ran.iter().flat_map(|i| [true, false].map(|began| Seen { measurer: *i as u16, after: true, data, value: pending[*i].unwrap(), began })).collect();
            if refused.is_some() {
                ensure!(result.is_err(), "{event:?}: an 'after' step with no matching 'before' step was accepted: {events:?}");
                // the ones before the refusal may or may not have run
                ensure!(events.len() <= expected.len() && events[..] == expected[..events.len()], "{event:?} ran {events:?}, where {expected:?} were due");
                drop(world);
                classes.push("refused".into());
                return pass_multi(true, classes);
            }
            ensure!(events == expected, "{event:?} ran {events:?}, where {expected:?} were due");
            let measurements = match result { Ok(Some(m)) => m, Ok(None) => unreachable!(), Err(e) => return fail(format!("{event:?}: unexpected failure: {e}")) };
            ensure!(measurements.len() == ran.len(), "{event:?}: {} measurements were recorded", measurements.len());
            for (m, i) in measurements.iter().zip(ran) {
                let d = &c.measurers[*i];
                let value = measured(*i as u16, pending[*i].unwrap());
                ensure!(m.name == d.name && m.description == d.description && m.expected_complexity == ALL[d.complexity], "{event:?}: the measurement of #{i} {d:?} is recorded as '{}' '{}' {:?}", m.name, m.description, m.expected_complexity);
                let due = custom_unit_measurement(value, "u").to_string();
                ensure!(m.measured_data.to_string() == due, "{event:?}: #{i} measured {due}, but {} is recorded", m.measured_data);
            }
            for i in ran { pending[*i] = None; }
            classes.push("after".into());
        } else {
            ensure!(result.is_ok(), "{event:?}: unexpected failure");
            let shape: Vec<(u16, bool, Option<Data>, bool)> = events.iter().map(|e| (e.measurer, e.after, e.data, e.began)).collect();
            let expected: Vec<(u16, bool, Option<Data>, bool)> = which.iter().flat_map(|i| [true, false].map(|began| (*i as u16, false, data, began))).collect();
            ensure!(shape == expected, "{event:?} ran {events:?}, where (measurer, after?, data, began?) {expected:?} were due");
            for e in events.iter().filter(|e| !e.began) { pending[e.measurer as usize] = Some(e.value); }
        }
    }
    drop(world);
    classes.sort();
    classes.dedup();
    pass_multi(k > 1, classes)
}

// ---- through the builder --------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run { measurers: Vec<Measurer>, with_averages: u8, reset: bool, warmup: bool, assertions: bool }
fn run_case() -> BoxedStrategy<Run> {
    (prop::collection::vec(measurer(), 0..6), any::<u8>(), any::<[bool; 3]>()).prop_map(|(measurers, with_averages, [reset, warmup, assertions])| Run { measurers, with_averages, reset, warmup, assertions }).boxed()
}
/// stages are logged as measurers from 1000 on: data received & returned
const PASS: [u16; 2] = [1001, 1002];
fn check_run(c: &Run) -> Outcome {
    let recorder = Recorder::new();
    let ids = Arc::new(AtomicU64::new(5));
    let stage = |tag: u16| {
        let (log, ids) = (recorder.log.clone(), ids.clone());
        move |data: Option<Data>| {
            let (log, ids) = (log.clone(), ids.clone());
            async move {
                let returned = ids.fetch_add(1, SeqCst);
                log.push(Seen { measurer: tag, after: false, data, value: returned, began: true });
                pause(1).await;
                log.push(Seen { measurer: tag, after: false, data, value: returned, began: false });
                returned
            }
        }
    };
    let world = World::enter(0);
    let result = catch(|| {
        let mut b = RegularAsyncAnalyzerBuilder::new("sut").first_pass(10, stage(PASS[0])).second_pass(20, stage(PASS[1]));
        if c.reset { b = b.with_reset_fn(stage(1003)); }
        if c.warmup { b = b.warmup_pass(stage(1004)); }
        if c.assertions {
            let (l1, l2) = (recorder.log.clone(), recorder.log.clone());
            b = b.first_pass_assertion(move |d: &Data| { l1.push(Seen { measurer: 1005, after: true, data: Some(*d), value: 0, began: true }); std::future::ready(()) })
                 .second_pass_assertion(move |d: &Data| { l2.push(Seen { measurer: 1006, after: true, data: Some(*d), value: 0, began: true }); std::future::ready(()) });
        }
        for (i, m) in c.measurers.iter().enumerate() {
            let (before, after) = (recorder.before(i as u16, m.suspend_before), recorder.after(i as u16, m.suspend_after));
            b = if c.with_averages >> i & 1 == 1 { b.add_custom_measurement_with_averages(&m.name, ALL[m.complexity], &m.description, before, after) }
                else { b.add_custom_measurement(m.name.clone(), ALL[m.complexity], m.description.clone(), before, after) };
        }
        block_on(b.verif_test_run())
    });
    let output = captured();
    drop(world);
    if let Err(e) = result { return fail(format!("unexpected failure: {e}")); }
    let events = recorder.log.all();
    let k = c.measurers.len();
    let mut shown_at = 0;
    for pass in 0..2 {
        let what = ["first pass", "second pass"][pass];
        let Some(at) = events.iter().position(|e| e.measurer == PASS[pass]) else { return fail(format!("the {what} didn't run")) };
        let (received, returned) = (events[at].data, events[at].value);
        ensure!(at >= 2 * k && events.len() >= at + 2 + 2 * k, "{what}: not every measurer ran: {events:?}");
        let before = &events[at - 2 * k..at];
        let after = &events[at + 2..at + 2 + 2 * k];
        ensure!(!events[at + 1].began && events[at + 1].measurer == PASS[pass], "{what}: something ran during the pass: {events:?}");
        for (j, i) in (0..k).rev().enumerate() {
            for (e, began) in [(before[2 * j], true), (before[2 * j + 1], false)] {
                ensure!(e.measurer == i as u16 && !e.after && e.began == began && e.data == received, "{what}: the 'before' step of #{i} was due with the data {received:?}, but: {before:?}");
            }
        }
        for i in 0..k {
            let value = before[2 * (k - 1 - i)].value;
            for (e, began) in [(after[2 * i], true), (after[2 * i + 1], false)] {
                ensure!(e.measurer == i as u16 && e.after && e.began == began && e.data == Some(returned) && e.value == value, "{what}: the 'after' step of #{i} was due with the data {returned} and the value {value}, but: {after:?}");
            }
            // recorded under its name, in order
            let line = format!("{} = {}", c.measurers[i].name, custom_unit_measurement(measured(i as u16, value), "u"));
            match output[shown_at..].find(&line) { Some(p) => shown_at += p + line.len(), None => return fail(format!("{what}: '{line}' isn't shown, or isn't in order: {output}")) }
        }
    }
    ensure!(events.iter().filter(|e| e.measurer < 1000).count() == 8 * k, "some measurer ran more than once per pass: {events:?}");
    pass(k > 1, format!("measurers-{k}"))
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C24", rule: "0..6 measurers with generated names (duplicates included), descriptions, classes and suspensions, driven by generated sequences of events (whole rounds, repeated & missing 'before' steps, single steps), and through the builder's run; nontrivial: more than one measurer or a refusal",
        assumptions: vec!["the builder's run of custom measurers is private: it is reached through the guarded hook"],
        subs: vec![Sub::new("direct", 400_000, 20_000_000, direct(), check_direct), Sub::new("builder", 250_000, 12_000_000, run_case(), check_run)] },
] }
