//! C23: displayed measurements, parsed back

use crate::analysis::{dur, log_u128};
use big_o_test::verif as pm;
use big_o_test::verif::verif_custom_unit_per_second_measurement;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;
use vcommon::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind { Bytes, BytesPerSecond, Unit(u16), UnitPerSecond(u16) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Quantity { Of(Kind, f64), Time(u128) }
/// built in order, then displayed in another
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Measured { items: Vec<Quantity>, order: Vec<u8> }

static UNITS: Mutex<Option<HashMap<u16, &'static str>>> = Mutex::new(None);
/// tricky names, then related ones (the prefixes & suffixes of one text: same address or same end; equal texts at different addresses; same but for case or blanks), then any number of others
fn unit(id: u16) -> &'static str {
    const TRICKY: [&str; 22] = ["", "b", "s", "KiB", "req", "msgs", "req/s", "e", "e5", "/hr", "µs", " ops", "%", "{}", "Req", "REQ", "req ", "B", "/s", "/min", "µ", "reqs"];
    static TEXT: &str = "ops per batch of requests per user and per server and per region and per ...";
    let id = id as usize;
    if let Some(s) = TRICKY.get(id) { return s; }
    let i = id - TRICKY.len();
    if i < 12 { return &TEXT[..i + 1]; }
    if i < 18 { return &TEXT[..TEXT.len() - i]; }
    if i < 24 { return &TEXT[i..]; }
    UNITS.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).entry(id as u16).or_insert_with(|| Box::leak(match i {
        24..=35 => TEXT[..i - 23].to_string(),
        36..=47 => "z".repeat(i - 35),
        _ => format!("u{}-{}", id % 7, id),
    }.into_boxed_str()))
}
fn value() -> BoxedStrategy<f64> {
    let thresholds = [1.0, 1024.0, (1u64 << 20) as f64, (1u64 << 30) as f64, (1u64 << 40) as f64, 100_000.0, 1.0 / 60.0, 1.0 / 3600.0, 10.0, 60.0, 3600.0];
    prop_oneof![
        1 => Just(0.0f64),
        4 => (-10.0f64..16.0).prop_map(|e| 10f64.powf(e)),
        1 => (-300.0f64..300.0).prop_map(|e| 10f64.powf(e)),
        1 => prop_oneof![Just(f64::MAX), Just(f64::MIN_POSITIVE), Just(5e-324), Just(0.5), Just(1.5), Just(0.005)],
        3 => (0usize..11, prop_oneof![Just(0.0f64), -0.01f64..0.01, -1e-5f64..1e-5, -1e-9f64..1e-9, Just(-2.3e-16), Just(2.3e-16)]).prop_map(move |(i, d)| thresholds[i] * (1.0 + d)),
        2 => (0u32..60).prop_map(|b| (1u64 << b) as f64),
        2 => (0u64..2_000_000).prop_map(|x| x as f64),
    ].boxed()
}
fn kind() -> BoxedStrategy<Kind> {
    let id = || prop_oneof![3 => 0u16..22, 3 => 22u16..70, 1 => 0u16..3000];
    prop_oneof![2 => Just(Kind::Bytes), 2 => Just(Kind::BytesPerSecond), 3 => id().prop_map(Kind::Unit), 3 => id().prop_map(Kind::UnitPerSecond)].boxed()
}
fn measured() -> BoxedStrategy<Measured> {
    let ns = prop_oneof![1 => Just(0u128), 6 => log_u128(1, 1 << 90), 2 => (0u32..20, 0u128..1000).prop_map(|(e, k)| 10u128.pow(e) * k), 1 => (0u128..1 << 34).prop_map(|d| u64::MAX as u128 * 1_000_000_000 + 999_999_999 - d)];
    (prop::collection::vec(prop_oneof![6 => (kind(), value()).prop_map(|(k, v)| Quantity::Of(k, v)), 1 => ns.prop_map(Quantity::Time)], 1..7), prop::collection::vec(any::<u8>(), 1..12))
        .prop_map(|(items, order)| Measured { items, order }).boxed()
}

/// the exact number of nanoseconds a displayed duration denotes
fn exact_ns(text: &str) -> Result<u128, String> {
    let (num, scale) = if let Some(n) = text.strip_suffix("ns") { (n, 0) } else if let Some(n) = text.strip_suffix("µs") { (n, 3) } else if let Some(n) = text.strip_suffix("ms") { (n, 6) }
        else if let Some(n) = text.strip_suffix('s') { (n, 9) } else { return Err(format!("no time unit in '{text}'")) };
    let (int, frac) = num.split_once('.').unwrap_or((num, ""));
    ensure_r!(frac.len() <= scale, "more digits than nanoseconds in '{text}'");
    let digits = format!("{int}{frac}{}", "0".repeat(scale - frac.len()));
    digits.parse().map_err(|_| format!("no number in '{text}'"))
}

fn check_quantity(kind: Kind, v: f64, text: &str) -> Result<&'static str, String> {
    let (base, per_second, bytes) = match kind {
        Kind::Bytes => ("b", false, true),
        Kind::BytesPerSecond => ("b", true, true),
        Kind::Unit(u) => (unit(u), false, false),
        Kind::UnitPerSecond(u) => (unit(u), true, false),
    };
    // the possible (unit, its size), from the biggest to the smallest
    let mut scale: Vec<(String, f64)> = vec![];
    let s = if per_second { "/s" } else { "" };
    if bytes { for (i, name) in ["TiB", "GiB", "MiB", "KiB"].iter().enumerate() { scale.push((format!("{name}{s}"), (1u64 << (40 - 10 * i)) as f64)); } }
    scale.push((format!("{base}{s}"), 1.0));
    let ones = scale.len() - 1;
    if per_second { scale.push((format!("{base}/min"), 1.0 / 60.0)); scale.push((format!("{base}/hr"), 1.0 / 3600.0)); }
    let i = scale.iter().position(|(_, size)| v >= *size).unwrap_or(ones);
    let mut allowed = vec![i];
    // thresholds of minutes & hours aren't exact numbers
    for (k, (_, size)) in scale.iter().enumerate() { if *size < 1.0 && (v / size - 1.0).abs() < 1e-14 { allowed = vec![k, if k + 1 < scale.len() { k + 1 } else { ones }]; } }
    let mut errors = vec![];
    for i in allowed {
        let (suffix, size) = &scale[i];
        let Some(number) = text.strip_suffix(suffix.as_str()) else { errors.push(format!("'{text}' should end with '{suffix}' for {v}")); continue };
        if number.is_empty() || !number.chars().all(|c| c.is_ascii_digit() || c == '.' || c == 'e') { errors.push(format!("'{text}' isn't a number followed by '{suffix}' for {v}")); continue }
        let mantissa = number.split('e').next().unwrap();
        let Ok(shown) = mantissa.parse::<f64>() else { errors.push(format!("'{number}' isn't a number, for {v}")); continue };
        let decimals = mantissa.split_once('.').map(|x| x.1.len()).unwrap_or(0);
        let power = number.split_once('e').map(|x| x.1.parse::<i32>().unwrap_or(0)).unwrap_or(0);
        let scaled = v / size / 10f64.powi(power);
        let half_digit = 0.5 * 10f64.powi(-(decimals as i32));
        if (shown - scaled).abs() > half_digit * (1.0 + 1e-9) + scaled * 1e-14 { errors.push(format!("'{text}' is shown for {v}")); continue }
        // precision: two decimals, unless there is nothing to show with them
        let whole = v < *size || (matches!(kind, Kind::Bytes) && *size == 1.0);
        let enough = if number.contains('e') { decimals >= 3 } else { decimals >= 2 || whole };
        if !enough { errors.push(format!("'{text}' is shown for {v}, without two decimals")); continue }
        if v == 0.0 && shown != 0.0 { errors.push(format!("'{text}' is shown for zero")); continue }
        return Ok(if number.contains('e') { "scientific" } else { ["unit-0", "unit-1", "unit-2", "unit-3", "unit-4", "unit-5", "unit-6"][i] });
    }
    Err(errors.join("; or "))
}

fn check_measured(c: &Measured) -> Outcome {
    let built: Vec<_> = c.items.iter().map(|q| match q {
        Quantity::Of(Kind::Bytes, v) => pm::bytes_measurement(*v),
        Quantity::Of(Kind::BytesPerSecond, v) => pm::bytes_per_second_measurement(*v),
        Quantity::Of(Kind::Unit(u), v) => pm::custom_unit_measurement(*v, unit(*u)),
        Quantity::Of(Kind::UnitPerSecond(u), v) => verif_custom_unit_per_second_measurement(*v, unit(*u)),
        Quantity::Time(ns) => pm::duration_measurement(dur(*ns)),
    }).collect();
    let mut classes = vec![];
    for i in (0..built.len()).chain(c.order.iter().map(|i| *i as usize % built.len())) {
        let text = match catch(|| built[i].to_string()) { Ok(t) => t, Err(e) => return fail(format!("{:?} cannot be displayed: {e}", c.items[i])) };
        match &c.items[i] {
            Quantity::Of(kind, v) => {
                match check_quantity(*kind, *v, &text) {
                    Ok(class) => classes.push(format!("{}/{class}", match kind { Kind::Bytes => "bytes", Kind::BytesPerSecond => "bytes-per-second", Kind::Unit(_) => "unit", Kind::UnitPerSecond(_) => "unit-per-second" })),
                    Err(e) => return fail(format!("{kind:?}: {e}")),
                }
            },
            Quantity::Time(ns) => {
                let shown = match exact_ns(&text) { Ok(s) => s, Err(e) => return fail(e) };
                // kept as floating point seconds: 53 bits
                ensure!(shown.abs_diff(*ns) <= ns >> 51, "'{text}' is shown for {:?}", dur(*ns));
                classes.push("duration".into());
            },
        }
    }
    classes.sort();
    classes.dedup();
    pass_multi(classes.len() > 1, classes)
}

// tests run in parallel, and so do their measurements
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parallel { threads: usize, each: usize, units: u32, stride: u32, rates: u32, late: bool, value: f64 }
fn parallel() -> BoxedStrategy<Parallel> {
    (2usize..9, 20usize..300, 1u32..300, 1u32..300, 0u32..4, any::<bool>(), 1.0f64..100_000.0)
        .prop_map(|(threads, each, units, stride, rates, late, value)| Parallel { threads, each, units, stride, rates, late, value }).boxed()
}
fn check_parallel(c: &Parallel) -> Outcome {
    static CASES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    // units no other case used yet
    let case = CASES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let units: Vec<&'static str> = (0..c.units).map(|i| &*Box::leak(format!("p{case}-{i}").into_boxed_str())).collect();
    let barrier = std::sync::Barrier::new(c.threads);
    let failures = std::thread::scope(|s| {
        let handles: Vec<_> = (0..c.threads).map(|t| { let (units, barrier) = (&units, &barrier); s.spawn(move || {
            barrier.wait();
            let mut kept = vec![];
            for i in 0..c.each {
                let u = units[(i as u32 * c.stride + t as u32 * 13) as usize % units.len()];
                let per_second = c.rates > 0 && i as u32 % (c.rates + 1) == 0;
                let built = if per_second { verif_custom_unit_per_second_measurement(c.value, u) } else { pm::custom_unit_measurement(c.value, u) };
                let due = format!("{:.2}{u}{}", c.value, if per_second { "/s" } else { "" });
                if c.late { kept.push((built, due)); } else { let shown = built.to_string(); if shown != due { return Err(format!("'{shown}' is shown instead of '{due}'")); } }
            }
            for (built, due) in kept { let shown = built.to_string(); if shown != due { return Err(format!("'{shown}' is shown instead of '{due}'")); } }
            Ok(())
        }) }).collect();
        handles.into_iter().map(|h| match h.join() { Ok(r) => r, Err(e) => Err(format!("a thread panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }).filter_map(|r| r.err()).collect::<Vec<_>>()
    });
    ensure!(failures.is_empty(), "with {} threads building measurements: {failures:?}", c.threads);
    pass_multi(c.units > 20, vec![format!("threads-{}", c.threads)])
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C23", rule: "lists of 1..6 measurements of generated kinds, units (3000 names: tricky ones, slices of one text, equal texts at different addresses) and values (whole magnitude range, around every threshold), all built first, then displayed in generated orders, and parsed back; parallel: 2..8 threads building measurements of up to 300 new units at once; nontrivial: more than one kind or scale, or 20 units at least",
        assumptions: vec!["durations are kept as floating point seconds (53 bits)", "the private per-second rate of custom units is reached through the guarded hook"],
        subs: vec![Sub::new("display", 1_500_000, 80_000_000, measured(), check_measured),
            Sub::new("parallel", 2_000, 20_000, parallel(), check_parallel)] },
] }
