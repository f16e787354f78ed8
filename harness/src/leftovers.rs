//! C26: what analyses leave behind: functions, data & futures not dropped, threads, file descriptors, memory

use crate::analysis::log_u32;
use crate::reference::*;
use crate::sim::*;
use big_o_test::runners::crud::{analyse_crud_algorithms, test_crud_algorithms};
use big_o_test::{test_algorithm, RegularAsyncAnalyzerBuilder, ALLOC};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll};
use vcommon::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind { Sync, Async, CrudTest, CrudAnalysis }
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Injected { No, /// at a user function's call, of the given order
    Panic(u16), /// dropped after being polled that many times
    Cancel(u16) }
/// one analysis, executed `runs` times
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leftovers {
    kind: Kind, runs: u16, name: String, n1: u32, n2: u32,
    /// async: reset, warm-up & assertions; CRUD: which operations
    present: [bool; 4],
    retries: u32, time_limit: usize, space_limit: usize,
    /// what consecutive passes take (time, heap) -- over and over
    costs: Vec<(u64, u32)>,
    threads: u32, warmup: u32, suspensions: u8,
    /// how much heap the data handed over by each async stage has
    data: u32,
    injected: Injected, payload: u8, late: bool,
}
fn leftovers(kind: BoxedStrategy<Kind>) -> BoxedStrategy<Leftovers> {
    let limit = || prop_oneof![2 => Just(16usize), 2 => Just(1usize), 1 => 0usize..17];
    let cost = || (prop_oneof![Just(1_000u64), Just(1_000_000), 1u64..10_000_000], prop_oneof![6 => Just(0u32), 2 => 1u32..100_000, 1 => (1u32 << 20)..(8 << 20)]);
    let injected = || prop_oneof![3 => Just(Injected::No), 2 => (0u16..7).prop_map(Injected::Panic), 1 => (0u16..40).prop_map(Injected::Panic), 2 => (0u16..8).prop_map(Injected::Cancel), 1 => (0u16..60).prop_map(Injected::Cancel)];
    ((kind, prop_oneof![12 => 7u16..10, 1 => 20u16..40], "[a-zA-Z ]{0,20}"), log_u32(2, 1 << 20), any::<[bool; 4]>(), (0u32..5, limit(), limit()), prop::collection::vec(cost(), 1..7), (1u32..5, prop_oneof![Just(0u32), 1u32..101]), (0u8..4, prop_oneof![0u32..200, 0u32..100_000]), (injected(), any::<u8>(), any::<bool>()))
        .prop_map(|((kind, runs, name), n1, present, (retries, time_limit, space_limit), costs, (threads, warmup), (suspensions, data), (injected, payload, late))| {
            let crud = matches!(kind, Kind::CrudTest | Kind::CrudAnalysis);
            let n1 = if crud { 1 + n1 % 6 } else { n1 };
            Leftovers { kind, runs, name, n1, n2: n1 * 2, present, retries, time_limit, space_limit, costs, threads, warmup, suspensions, data,
                injected: match injected { Injected::Cancel(_) if kind != Kind::Async => Injected::No, i => i }, payload, late }
        }).boxed()
}

// ---- the ones to be dropped -----------------------------------------------------------------------------------------

/// one per sort of value: functions, futures & data
#[derive(Default)]
struct Census { made: [AtomicU64; 3], alive: [AtomicI64; 3] }
const FUNCTION: usize = 0;
const FUTURE: usize = 1;
const DATA: usize = 2;
const SORTS: [&str; 3] = ["function(s) given to it", "future(s) returned by the functions given to it", "piece(s) of data returned by the functions given to it"];

struct Token { census: Arc<Census>, sort: usize, _heap: Vec<u8> }
impl Token {
    fn new(census: &Arc<Census>, sort: usize, heap: usize) -> Token {
        census.made[sort].fetch_add(1, SeqCst);
        census.alive[sort].fetch_add(1, SeqCst);
        Token { census: Arc::clone(census), sort, _heap: Vec::with_capacity(heap) }
    }
    fn touch(&self) { std::hint::black_box(self.sort); }
}
impl Drop for Token { fn drop(&mut self) { self.census.alive[self.sort].fetch_sub(1, SeqCst); } }
struct Data { _token: Token }
// (to be shown by reports, if ever)
impl std::fmt::Debug for Data { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Data") } }

/// polls a future up to so many times, then drops it
struct Cancelled<F> { inner: Option<Pin<Box<F>>>, polls: usize }
impl<F: Future<Output = ()>> Future for Cancelled<F> {
    type Output = bool;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
        if self.polls == 0 { self.inner = None; return Poll::Ready(true); }
        self.polls -= 1;
        match self.inner.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(()) => { self.inner = None; Poll::Ready(false) },
            Poll::Pending if self.polls == 0 => { self.inner = None; Poll::Ready(true) },
            Poll::Pending => Poll::Pending,
        }
    }
}

// ---- what the process has -------------------------------------------------------------------------------------------

fn entries(dir: &str) -> usize { std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0) }
/// as soon as threads that are already on their way out leave
fn threads_beyond(before: usize) -> usize {
    let start = real_ns();
    loop {
        let now = entries("/proc/self/task");
        if now <= before || real_ns() - start > 1_000_000_000 { return now.saturating_sub(before); }
        std::thread::yield_now();
    }
}
fn heap_level() -> usize { ALLOC.save_point().metrics.current_used_memory }

// ---- running --------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum End { Accepted, TimeFailure, SpaceFailure, Panicked, Cancelled }

/// the calls made to the user functions of one run
struct Calls { case: Leftovers, calls: AtomicUsize, passes: AtomicUsize }
impl Calls {
    fn begin(&self) -> bool {
        let k = self.calls.fetch_add(1, SeqCst);
        if k > 5_000 { panic!("RUNAWAY: the user functions are being called endlessly"); }
        let due = self.case.injected == Injected::Panic(k.min(60_000) as u16);
        if due && !self.case.late { inject(self.case.payload); }
        due
    }
    fn end(&self, due: bool) { if due { inject(self.case.payload); } }
    fn cost(&self, pass: bool) {
        if !pass { return; }
        let (ns, heap) = self.case.costs[self.passes.fetch_add(1, SeqCst) % self.case.costs.len()];
        charge(ns);
        spike(heap as usize);
    }
    fn call(&self, pass: bool) -> u32 {
        let due = self.begin();
        self.cost(pass);
        self.end(due);
        7
    }
}

fn asynchronous(c: &Leftovers, calls: &Arc<Calls>, census: &Arc<Census>) -> Result<End, String> {
    let stage = |pass: bool| {
        let (function, calls, census) = (Token::new(census, FUNCTION, 0), Arc::clone(calls), Arc::clone(census));
        move |data: Option<Data>| {
            function.touch();
            let (calls, census, future) = (Arc::clone(&calls), Arc::clone(&census), Token::new(&census, FUTURE, 0));
            async move {
                future.touch();
                let due = calls.begin();
                for _ in 0..calls.case.suspensions { suspend(&[]).await; }
                calls.cost(pass);
                drop(data);
                let returned = Data { _token: Token::new(&census, DATA, calls.case.data as usize) };
                calls.end(due);
                returned
            }
        }
    };
    let assertion = || {
        let (function, calls, census) = (Token::new(census, FUNCTION, 0), Arc::clone(calls), Arc::clone(census));
        move |_: &Data| {
            function.touch();
            let (calls, future) = (Arc::clone(&calls), Token::new(&census, FUTURE, 0));
            async move {
                future.touch();
                let due = calls.begin();
                for _ in 0..calls.case.suspensions { suspend(&[]).await; }
                calls.end(due);
            }
        }
    };
    let mut b = RegularAsyncAnalyzerBuilder::new(c.name.clone()).first_pass(c.n1, stage(true)).second_pass(c.n2, stage(true)).with_max_reattempts(c.retries);
    if c.present[0] { b = b.with_reset_fn(stage(false)); }
    if c.present[1] { b = b.warmup_pass(stage(false)); }
    if c.present[2] { b = b.first_pass_assertion(assertion()); }
    if c.present[3] { b = b.second_pass_assertion(assertion()); }
    if c.time_limit < 16 { b = b.with_time_measurements(ALL[c.time_limit]); }
    if c.space_limit < 16 { b = b.with_space_measurements(ALL[c.space_limit]); }
    let polls = match c.injected { Injected::Cancel(polls) => polls as usize, _ => usize::MAX };
    catch(|| block_on(Cancelled { inner: Some(Box::pin(b.test_algorithm())), polls })).map(|cancelled| if cancelled { End::Cancelled } else { End::Accepted })
}
fn run(c: &Leftovers, census: &Arc<Census>) -> Result<End, String> {
    let calls = Arc::new(Calls { case: c.clone(), calls: AtomicUsize::new(0), passes: AtomicUsize::new(0) });
    let token = || Token::new(census, FUNCTION, 0);
    let (time, space) = (ALL[c.time_limit], ALL[c.space_limit]);
    let n = |i: usize| if c.present[i] || i == 0 { c.n1 } else { 0 };
    let op = |pass: bool| { let (t, calls) = (token(), Arc::clone(&calls)); move |_: u32| { t.touch(); calls.call(pass) } };
    match c.kind {
        Kind::Sync => {
            let (t0, t1, t2) = (token(), token(), token());
            let (c0, c1, c2) = (Arc::clone(&calls), Arc::clone(&calls), Arc::clone(&calls));
            catch(|| test_algorithm(&c.name, c.retries, move || { t0.touch(); c0.call(false); }, c.n1, move || { t1.touch(); c1.call(true) }, c.n2, move || { t2.touch(); c2.call(true) }, time, space)).map(|_| End::Accepted)
        },
        Kind::Async => asynchronous(c, &calls, census),
        Kind::CrudTest => {
            let (r, o) = (op(false), (op(true), op(true), op(true), op(true)));
            catch(|| test_crud_algorithms(&c.name, c.retries, r, o.0, time, space, o.1, time, space, o.2, time, space, o.3, time, space,
                c.warmup, n(0), n(1), n(2), n(3), c.threads, c.threads, c.threads, c.threads)).map(|_| End::Accepted)
        },
        Kind::CrudAnalysis => {
            let (r, o) = (op(false), (op(true), op(true), op(true), op(true)));
            catch(|| drop(analyse_crud_algorithms(&c.name, r, o.0, o.1, o.2, o.3, c.warmup, n(0), n(1), n(2), n(3), c.threads, c.threads, c.threads, c.threads))).map(|_| End::Accepted)
        },
    }
}

/// where the levels of long series are compared
const SERIES: [usize; 4] = [40, 160, 640, 2560];
fn series() -> BoxedStrategy<Leftovers> {
    leftovers(prop_oneof![Just(Kind::Sync), Just(Kind::Async), Just(Kind::CrudTest), Just(Kind::CrudAnalysis)].boxed()).prop_map(|mut c| {
        c.runs = SERIES[3] as u16 + 1;
        c.retries = c.retries.min(2);
        c.costs.iter_mut().for_each(|c| c.1 = c.1.min(100_000));
        if matches!(c.kind, Kind::CrudTest | Kind::CrudAnalysis) { c.n1 = c.n1.min(2); c.threads = 1; c.warmup = c.warmup.min(10); }
        c
    }).boxed()
}

fn check(c: &Leftovers) -> Outcome {
    let world = World::enter(1000);
    let (threads, files) = (entries("/proc/self/task"), entries("/proc/self/fd"));
    // (no allocations by the checks themselves, in between runs)
    let mut levels = Vec::with_capacity(c.runs as usize);
    let mut ends = Vec::with_capacity(c.runs as usize);
    for i in 0..c.runs {
        let census = Arc::new(Census::default());
        let result = run(c, &census);
        for (sort, what) in SORTS.iter().enumerate() {
            let alive = census.alive[sort].load(SeqCst);
            ensure!(alive == 0, "run #{i} ended with {result:?}, but {alive} of {} {what} weren't dropped", census.made[sort].load(SeqCst));
        }
        ends.push(match result {
            Ok(end) => end,
            Err(e) if e.contains("RUNAWAY") => return fail(e),
            Err(e) if e.contains("INJECTED") || e.contains("opaque") => End::Panicked,
            Err(e) if e.contains("SPACE") => End::SpaceFailure,
            Err(e) if e.contains("TIME") || e.contains("Time") => End::TimeFailure,
            Err(_) => End::Panicked,
        });
        let beyond = threads_beyond(threads);
        ensure!(beyond == 0, "{beyond} thread(s) are still there after run #{i}");
        drop(census);
        levels.push(heap_level());
    }
    drop(world);
    let left = entries("/proc/self/fd").saturating_sub(files);
    ensure!(left == 0, "{left} files are still opened after {} runs", c.runs);
    if ends.windows(2).any(|e| e[0] != e[1]) { return pass(true, format!("{:?}-several-endings", c.kind)); }
    if c.runs as usize > SERIES[3] {
        // (a collection which isn't ever emptied takes some space at once, for later use)
        let at = SERIES.map(|i| levels[i]);
        ensure!(at.windows(2).any(|l| l[1] <= l[0]), "the heap keeps on growing: {at:?} bytes were in use after {SERIES:?} runs");
    } else {
        // whatever is set up once is there by the 3rd run
        let grew = levels[2..].windows(2).filter(|l| l[1] > l[0]).count();
        let shrank = levels[2..].windows(2).any(|l| l[1] < l[0]);
        ensure!(shrank || grew < 3, "the heap grows with every run: {levels:?} (bytes in use after each)");
    }
    pass_multi(true, vec![format!("{:?}", c.kind), format!("{:?}-{:?}", c.kind, ends[0])])
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C26", rule: "regular, async & CRUD tests and CRUD analyses (generated stages, costs, limits, retries, threads, suspensions, data), ended by acceptance, failures, a panic in any call of a user function or by dropping the future after any number of polls, each executed 7..40 times (some, 2561 times); nontrivial: every case",
        assumptions: vec!["time only passes when the user functions say so: clock_gettime & sleeps of the process are virtual", "threads which are ending have 1 s to be gone"],
        // (first: the process has to be new)
        subs: vec![Sub::new("series", 32, 2_000, series(), check),
            Sub::new("regular", 70_000, 4_000_000, leftovers(prop_oneof![2 => Just(Kind::Sync), 5 => Just(Kind::Async)].boxed()), check),
            Sub::new("crud", 8_000, 500_000, leftovers(prop_oneof![Just(Kind::CrudTest), Just(Kind::CrudAnalysis)].boxed()), check)] },
] }
