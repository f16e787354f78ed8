//! C25: analyses running one after the other, inside of each other, or at the same time

use crate::analysis::log_u32;
use crate::crud::{analyse, check_time, Config};
use crate::reference::*;
use crate::regular::{aimed, check_ending, Costs, Ending};
use crate::sim::*;
use big_o_test::{test_algorithm, RegularAsyncAnalyzerBuilder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use vcommon::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind { Sync, Async, Crud }
/// an analysis. CRUD ones create & read `n1` elements, charging the times of the first attempt for each pass' elements
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job { kind: Kind, n1: u32, n2: u32, threads: u32, time_limit: usize, space_limit: usize, retries: u32, attempts: Vec<Costs>, guests: Vec<Guest> }
/// an analysis done by a stage of another: 0: reset, 1 & 2: passes
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Guest { attempt: usize, stage: u8, job: Job }
impl Job {
    fn visit(&mut self, f: &mut dyn FnMut(&mut Job)) { f(self); self.guests.iter_mut().for_each(|g| g.job.visit(f)); }
    fn count(&self) -> usize { 1 + self.guests.iter().map(|g| g.job.count()).sum::<usize>() }
    fn kinds(&self, to: &mut Vec<String>) { to.push(format!("{:?}", self.kind)); self.guests.iter().for_each(|g| g.job.kinds(to)); }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum How { Sequence, Threads, Joined, Moved }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Together { how: How, jobs: Vec<Job>, turns: Vec<u8> }

// ---- generation -----------------------------------------------------------------------------------------------------

fn job(heap: bool) -> BoxedStrategy<Job> {
    let kind = prop_oneof![3 => Just(Kind::Sync), 3 => Just(Kind::Async), 2 => Just(Kind::Crud)];
    let attempt = (0usize..17, any::<bool>(), 0usize..17, 0u8..6, (-1.0f64..1.0, -1.0f64..1.0), 0.0f64..1.0, 0.0f64..1.0);
    let limit = || prop_oneof![1 => Just(16usize), 4 => 0usize..17];
    (kind, log_u32(2, 1 << 20), 0u8..4, 1u32..4, limit(), limit(), 0u32..4, prop::collection::vec(attempt, 4)).prop_map(move |(kind, n1, ratio, threads, tl, sl, retries, attempts)| {
        let n1 = if kind == Kind::Crud { 2 + n1 % 12 } else { n1 };
        let n2 = match ratio { 0 | 1 => n1 * 2, 2 => n1 * 3, _ => n1 + n1 / 2 + 1 };
        let (f1, f2) = (n1 as f64, n2 as f64);
        let attempts = attempts.into_iter().take(retries as usize + 1).map(|(tx, slow, sx, sworse, (jt, js), ut, us)| {
            // often slow, so there are retries; seldom too much memory
            let tx = if slow && tl < 16 { tl + 1 + tx % (16 - tl) } else { tx % (tl + 1) };
            let sx = if sworse == 0 { sx } else { sx % (sl + 1) };
            let t1 = (1e3 * (1e7f64).powf(ut)).round();
            let h1 = ((4 << 20) as f64 * 60f64.powf(us)).round();
            let t2 = (aimed(tx, t1 * 1e-9, f1, f2, jt) * 1e9).clamp(0.0, 1e16).round();
            let h2 = (aimed(sx, h1, f1, f2, js)).clamp(0.0, (1u64 << 30) as f64).round();
            Costs { t1: t1 as u64, t2: t2 as u64, h1: if heap { h1 as u32 } else { 0 }, h2: if heap { h2 as u32 } else { 0 } }
        }).collect();
        Job { kind, n1, n2, threads, time_limit: tl, space_limit: if heap { sl } else { 16 }, retries, attempts, guests: vec![] }
    }).boxed()
}
fn guests(heap: bool, depth: usize) -> BoxedStrategy<Vec<Guest>> {
    if depth == 0 { return Just(vec![]).boxed(); }
    prop::collection::vec((0usize..3, 0u8..3, job(heap), guests(heap, depth - 1)).prop_map(|(attempt, stage, mut job, guests)| { job.guests = guests; Guest { attempt, stage, job } }), 0..3).boxed()
}
fn with_guests(heap: bool, depth: usize) -> BoxedStrategy<Job> {
    (job(heap), guests(heap, depth)).prop_map(|(mut job, guests)| {
        job.guests = guests;
        fix(&mut job, false);
        job
    }).boxed()
}
/// a runtime can't be started inside of another
fn fix(j: &mut Job, in_async: bool) {
    if in_async && j.kind == Kind::Async { j.kind = Kind::Sync; }
    let in_async = in_async || j.kind == Kind::Async;
    j.guests.iter_mut().for_each(|g| fix(&mut g.job, in_async));
}
fn nested() -> BoxedStrategy<Together> {
    (with_guests(true, 2), prop::option::weighted(0.3, with_guests(true, 1))).prop_map(|(j, then)| Together { how: How::Sequence, jobs: std::iter::once(j).chain(then).collect(), turns: vec![] }).boxed()
}
fn sequence() -> BoxedStrategy<Together> { prop::collection::vec(job(true), 2..6).prop_map(|jobs| Together { how: How::Sequence, jobs, turns: vec![] }).boxed() }
fn threads() -> BoxedStrategy<Together> {
    (prop::collection::vec(with_guests(false, 1), 2..5), prop::collection::vec(0u8..4, 0..60)).prop_map(|(jobs, turns)| { let n = jobs.len() as u8; Together { how: How::Threads, jobs, turns: turns.into_iter().map(|t| t % n).collect() } }).boxed()
}
/// the same as [joined()], on a runtime which goes on with them on any of its threads
fn moved() -> BoxedStrategy<Together> {
    (joined(), 1usize..5, prop::collection::vec(0u8..MOVERS as u8, 1..40)).prop_map(|(mut c, jobs, turns)| { c.how = How::Moved; c.jobs.truncate(jobs); c.turns = turns; c }).boxed()
}
fn joined() -> BoxedStrategy<Together> {
    prop::collection::vec((job(false), guests(false, 1)), 2..5).prop_map(|jobs| Together { how: How::Joined, turns: vec![], jobs: jobs.into_iter().map(|(mut j, guests)| {
        if j.kind == Kind::Crud { j.n1 *= 1000; j.n2 *= 1000; }
        j.kind = Kind::Async;
        j.guests = guests;
        fix(&mut j, false);
        j
    }).collect() }).boxed()
}

// ---- turns: who goes on with the next step, among threads -----------------------------------------------------------

struct Turns { order: Vec<u8>, at: AtomicUsize, done: Vec<AtomicBool> }
impl Turns {
    fn new(order: &[u8], jobs: usize) -> Turns { Turns { order: order.to_vec(), at: AtomicUsize::new(0), done: (0..jobs).map(|_| AtomicBool::new(false)).collect() } }
    /// waits for the turn of `who` -- for a while: others may be unable to take theirs
    fn wait(&self, who: usize) {
        let start = real_ns();
        loop {
            let at = self.at.load(SeqCst);
            let Some(next) = self.order.get(at) else { return };
            let theirs = *next as usize != who;
            if theirs && !self.done[*next as usize].load(SeqCst) && real_ns() - start < 3_000_000 { std::thread::yield_now(); continue; }
            if self.at.compare_exchange(at, at + 1, SeqCst, SeqCst).is_ok() && !theirs { return; }
        }
    }
}

// ---- running --------------------------------------------------------------------------------------------------------

/// how much more heap a nested analysis may use for itself
const NOISE: u64 = 512 * 1024;

#[derive(Clone, Copy, Debug)]
struct Event { stage: u8, elem: u32, ns: u64, peak: u64, guests: bool }
struct Shared { turns: Turns, broken: Mutex<Vec<String>>, ids: AtomicUsize, undecided: AtomicBool, endings: [AtomicUsize; 3] }
impl Shared { fn report(&self, e: String) { self.broken.lock().unwrap_or_else(|e| e.into_inner()).push(e); } }

/// the execution of a [Job]
struct Run { job: Job, id: usize, who: usize, log: Arc<Log<Event>>, shared: Arc<Shared> }
impl Run {
    fn new(job: &Job, who: usize, shared: &Arc<Shared>) -> Arc<Run> {
        let limit = 4 * (job.retries as usize + 1) + 12 * job.n1.min(20) as usize + 40;
        Arc::new(Run { job: job.clone(), id: shared.ids.fetch_add(1, SeqCst), who, log: Log::new(limit), shared: Arc::clone(shared) })
    }
    fn name(&self) -> String { format!("job-{}-", self.id) }
    fn begin(&self, stage: u8) -> (usize, Costs) {
        self.shared.turns.wait(self.who);
        let attempt = self.log.with(|l| l.iter().filter(|e| e.stage == 2).count());
        (attempt, self.job.attempts.get(attempt.min(self.job.attempts.len() - 1)).map(|c| match stage { 0 => Costs { t1: 7, t2: 0, h1: 0, h2: 0 }, 1 => c.clone(), _ => Costs { t1: c.t2, t2: 0, h1: c.h2, h2: 0 } }).unwrap())
    }
    /// runs the guests of a stage, returning the highest of the peaks they caused
    fn host(&self, attempt: usize, stage: u8) -> (u64, bool) {
        let mut peak = 0;
        let mut any = false;
        for g in self.job.guests.iter().filter(|g| g.attempt == attempt && g.stage == stage) {
            peak = peak.max(Run::new(&g.job, self.who, &self.shared).run());
            any = true;
        }
        (peak, any)
    }
    fn end(&self, stage: u8, elem: u32, start: u64, peak: u64, guests: bool) { self.log.push(Event { stage, elem, ns: now() - start, peak, guests }); }
    /// a whole stage of a sync analysis
    fn stage(&self, stage: u8) -> u32 {
        let start = now();
        let (attempt, cost) = self.begin(stage);
        charge(cost.t1 / 2);
        // resets may come twice in an attempt
        let again = stage == 0 && self.log.with(|l| l.last().is_some_and(|e| e.stage == 1));
        let (peak, any) = if again { (0, false) } else { self.host(attempt, stage) };
        spike(cost.h1 as usize);
        self.shared.turns.wait(self.who);
        charge(cost.t1 - cost.t1 / 2);
        self.end(stage, 0, start, peak.max(cost.h1 as u64), any);
        attempt as u32
    }
    /// the same, suspending itself
    async fn stage_async(self: Arc<Self>, stage: u8, start: u64) {
        let (attempt, cost) = self.begin(stage);
        Pause(cost.t1 % 3 == 0).await;
        charge(cost.t1 / 2);
        let again = stage == 0 && self.log.with(|l| l.last().is_some_and(|e| e.stage == 1));
        let (peak, any) = if again { (0, false) } else { self.host(attempt, stage) };
        Pause(cost.t1 % 5 < 3).await;
        spike(cost.h1 as usize);
        self.shared.turns.wait(self.who);
        Pause(cost.t1 % 7 < 4).await;
        charge(cost.t1 - cost.t1 / 2);
        self.end(stage, 0, start, peak.max(cost.h1 as u64), any);
    }
    /// runs the analysis and checks how it went, returning the highest peak of heap it caused
    fn run(self: Arc<Self>) -> u64 {
        let (result, facts) = match self.job.kind {
            Kind::Sync => (catch(|| test_algorithm(&self.name(), self.job.retries, || { self.stage(0); }, self.job.n1, || self.stage(1), self.job.n2, || self.stage(2), ALL[self.job.time_limit], ALL[self.job.space_limit])), None),
            Kind::Async => (catch(|| block_on(Arc::clone(&self).analysis())), None),
            Kind::Crud => self.crud(),
        };
        match self.job.kind { Kind::Crud => self.check_crud(result, facts), _ => self.check(result) }
        self.log.with(|l| l.iter().map(|e| e.peak).max().unwrap_or(0))
    }
    async fn analysis(self: Arc<Self>) {
        #[derive(Debug)]
        struct Data(usize);
        let stage = |stage: u8| {
            let me = Arc::clone(&self);
            move |data: Option<Data>| {
                let start = now();
                if let Some(d) = &data { if d.0 != me.id { me.shared.report(format!("{}: got the data of job {}", me.name(), d.0)); } }
                let me = Arc::clone(&me);
                async move { let id = me.id; me.stage_async(stage, start).await; Data(id) }
            }
        };
        let analysis = RegularAsyncAnalyzerBuilder::new(self.name()).first_pass(self.job.n1, stage(1)).second_pass(self.job.n2, stage(2)).with_reset_fn(stage(0))
            .with_max_reattempts(self.job.retries).with_time_measurements(ALL[self.job.time_limit]).with_space_measurements(ALL[self.job.space_limit])
            .test_algorithm();
        if !Movable(&analysis).yes() { self.shared.report(format!("{}: can't be moved to another thread", self.name())); return; }
        analysis.await
    }
    /// what should happen, given how much each pass took
    fn check(&self, result: Result<(), String>) {
        let j = &self.job;
        let events = self.log.all();
        let stages: Vec<u8> = events.iter().map(|e| e.stage).collect();
        let passes: Vec<&Event> = events.iter().filter(|e| e.stage != 0).collect();
        let of_attempt: &[u8] = if j.kind == Kind::Sync { &[0, 1, 2] } else { &[0, 1, 0, 2] };
        let due = |attempts: usize| (0..attempts).flat_map(|_| of_attempt.iter().copied()).collect::<Vec<u8>>();
        let mut ending = None;
        for a in 0..=j.retries as usize {
            let Some([p1, p2]) = passes.get(a * 2..a * 2 + 2) else {
                return self.shared.report(format!("{} ({:?}): only {} attempts, and the last of them should have been followed by another: {stages:?}, ended with {result:?}", self.name(), j.kind, a));
            };
            let secs = |e: &Event| Duration::from_nanos(e.ns).as_secs_f64();
            let (f1, f2) = (j.n1 as f64, j.n2 as f64);
            if j.space_limit < 16 {
                let bounds = |e: &Event| (e.peak as f64, (e.peak + if e.guests { NOISE } else { 0 }) as f64);
                let ((l1, h1), (l2, h2)) = (bounds(p1), bounds(p2));
                let (s, t) = (growth_verdict(l1, h2, f1, f2, TOL), growth_verdict(h1, l2, f1, f2, TOL));
                if s.is_none() || s != t { self.shared.undecided.store(true, SeqCst); return; }
                if s.unwrap() > j.space_limit { ending = Some((Ending::Space(a, ALL[j.space_limit], ALL[s.unwrap()]), a + 1)); break; }
            }
            if j.time_limit < 16 {
                let Some(t) = growth_verdict(secs(p1), secs(p2), f1, f2, TOL) else { self.shared.undecided.store(true, SeqCst); return };
                if t > j.time_limit {
                    if a == j.retries as usize { ending = Some((Ending::Time(a, ALL[j.time_limit], ALL[t]), a + 1)); break; }
                    continue;
                }
            }
            ending = Some((Ending::Accepted, a + 1));
            break;
        }
        let (ending, attempts) = ending.unwrap();
        if stages != due(attempts) { return self.shared.report(format!("{} ({:?}): {attempts} attempts were due, but the stages (0: reset, 1 & 2: passes) were {stages:?}; ended with {result:?}", self.name(), j.kind)); }
        if let Err(e) = &result {
            if e.match_indices("job-").any(|(i, _)| !e[i..].starts_with(&self.name())) { return self.shared.report(format!("{}: the failure is about another analysis: {e}", self.name())); }
        }
        let i = match ending { Ending::Accepted => 0, Ending::Space(..) => 1, Ending::Time(..) => 2 };
        self.shared.endings[i].fetch_add(1, SeqCst);
        if let Err(e) = check_ending(result, &ending) { self.shared.report(format!("{} ({:?}): {e}; took {:?}", self.name(), j.kind, passes.iter().map(|e| (e.ns, e.peak)).collect::<Vec<_>>())); }
    }
    fn crud(&self) -> (Result<(), String>, Option<crate::crud::Analysed>) {
        let (n, c) = (self.job.n1, &self.job.attempts[0]);
        let config = Config { n: [n, n, 0, 0], threads: [self.job.threads, 1, 0, 0], warmup: 0 };
        match catch(|| analyse(&self.name(), &config, &|_| self.end(9, 0, now(), 0, false), &|op, e| {
            let start = now();
            let pass = (e / n).min(1);
            if e % n == n / 2 { self.shared.turns.wait(self.who); }
            let (peak, any) = if op == 1 && e % n == 0 { self.host(0, 1 + pass as u8) } else { (0, false) };
            let size = if op == 1 && e % n == n - 1 { [c.h1, c.h2][pass as usize] } else { 0 };
            spike(size as usize);
            charge([c.t1, c.t2][pass as usize] / n as u64);
            self.end(op, e, start, peak.max(size as u64), any);
        })) { Ok(a) => (Ok(()), Some(a)), Err(e) => (Err(e), None) }
    }
    fn check_crud(&self, result: Result<(), String>, analysed: Option<crate::crud::Analysed>) {
        let n = self.job.n1;
        let Some(a) = analysed else { return self.shared.report(format!("{} (CRUD): unexpected failure: {result:?}", self.name())) };
        let events = self.log.all();
        let mut calls: Vec<(u8, u32)> = events.iter().map(|e| (e.stage, e.elem)).collect();
        calls.sort();
        let due: Vec<(u8, u32)> = (0..2u8).flat_map(|op| (0..n * 2).map(move |e| (op, e))).collect();
        if calls != due { return self.shared.report(format!("{} (CRUD): the calls (0: create, 1: read) were {calls:?} where {due:?} were due", self.name())); }
        for op in 0..4usize {
            let Some(f) = &a.facts[op] else { if op < 2 { self.shared.report(format!("{} (CRUD): an analysis is missing", self.name())) } continue };
            if op > 1 { self.shared.report(format!("{} (CRUD): the analysis of something that wasn't executed", self.name())); continue; }
            for pass in 0..2usize {
                let what = format!("{} (CRUD), {} pass {}", self.name(), crate::crud::OPS[op], pass + 1);
                let of = events.iter().filter(|e| e.stage as usize == op && (e.elem / n) as usize == pass);
                let (total, peak) = of.fold((0, 0), |(t, p), e| (t + e.ns, e.peak.max(p)));
                if let Err(e) = check_time(f.time[pass], total, n, if op == 0 { self.job.threads } else { 1 }, &what) { self.shared.report(e); }
                let s = &f.space[pass];
                if ((s.max_used_memory - s.min_used_memory) as u64) < peak { self.shared.report(format!("{what}: a heap peak of {peak} isn't in {s:?}")); }
            }
        }
    }
}

/// lets others go on, once (if at all)
struct Pause(bool);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if !self.0 { return Poll::Ready(()); }
        self.0 = false;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
/// whether a value may go to another thread: [Either::yes()] is what is called if it isn't [Send]
struct Movable<'a, T>(&'a T);
impl<T: Send> Movable<'_, T> { fn yes(&self) -> bool { _ = self.0; true } }
trait Either { fn yes(&self) -> bool; }
impl<T> Either for Movable<'_, T> { fn yes(&self) -> bool { false } }

/// the number of threads [How::Moved] analyses are polled by
const MOVERS: usize = 3;
type Movement = (usize, Waker, tokio::runtime::Handle);
type Polled = Result<Poll<()>, String>;
/// threads polling futures on behalf of the runtime's
struct Movers { to: Vec<Sender<Movement>>, from: Receiver<Polled>, order: Vec<u8>, at: usize }
impl Movers {
    fn with<R>(order: &[u8], f: impl FnOnce(Movers) -> R) -> R {
        std::thread::scope(|s| {
            let (done, from) = channel();
            let to = (0..MOVERS).map(|_| {
                let (to, work) = channel::<Movement>();
                let done = done.clone();
                s.spawn(move || for (future, waker, runtime) in work {
                    let _entered = runtime.enter();
                    adopt_main_clock();
                    // safe: the runtime's thread waits for the result, and what is analysed was found to be movable -- the rest of the future (from this harness) is, too
                    let future = unsafe { &mut *(future as *mut Pin<Box<dyn Future<Output = ()>>>) };
                    _ = done.send(catch(|| future.as_mut().poll(&mut Context::from_waker(&waker))));
                });
                to
            }).collect();
            f(Movers { to, from, order: order.to_vec(), at: 0 })
        })
    }
    fn poll(&mut self, future: &mut Pin<Box<dyn Future<Output = ()>>>, cx: &mut Context<'_>) -> Polled {
        let mover = self.order[self.at % self.order.len()] as usize;
        self.at += 1;
        self.to[mover % MOVERS].send((future as *mut _ as usize, cx.waker().clone(), tokio::runtime::Handle::current())).expect("harness: a mover is gone");
        let r = self.from.recv().expect("harness: the movers are gone");
        adopt_main_clock();
        r
    }
}

/// futures executed together, until all of them end or panic
struct Joined { jobs: Vec<(Option<Pin<Box<dyn Future<Output = ()>>>>, Result<(), String>)>, movers: Option<Movers> }
impl Future for Joined {
    type Output = Vec<Result<(), String>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let Joined { jobs, movers } = &mut *self;
        for (job, result) in jobs.iter_mut() {
            let Some(f) = job else { continue };
            match match movers { Some(m) => m.poll(f, cx), None => catch(|| f.as_mut().poll(cx)) } {
                Ok(Poll::Pending) => continue,
                Ok(Poll::Ready(())) => (),
                Err(e) => *result = Err(e),
            }
            *job = None;
        }
        if self.jobs.iter().all(|j| j.0.is_none()) { Poll::Ready(self.jobs.iter().map(|j| j.1.clone()).collect()) } else { Poll::Pending }
    }
}

fn check(c: &Together) -> Outcome {
    let shared = Arc::new(Shared { turns: Turns::new(if c.how == How::Threads { &c.turns } else { &[] }, c.jobs.len()), broken: Mutex::new(vec![]), ids: AtomicUsize::new(0), undecided: AtomicBool::new(false), endings: Default::default() });
    let world = World::enter(0);
    let runs: Vec<Arc<Run>> = c.jobs.iter().enumerate().map(|(i, j)| Run::new(j, i, &shared)).collect();
    match c.how {
        How::Sequence => for r in &runs { Arc::clone(r).run(); },
        How::Threads => std::thread::scope(|s| for r in &runs {
            s.spawn(|| {
                Arc::clone(r).run();
                r.shared.turns.done[r.who].store(true, SeqCst);
            });
        }),
        How::Joined | How::Moved => {
            let join = |movers| block_on(Joined { jobs: runs.iter().map(|r| (Some(Box::pin(Arc::clone(r).analysis()) as Pin<Box<dyn Future<Output = ()>>>), Ok(()))).collect(), movers });
            let results = if c.how == How::Moved { Movers::with(&c.turns, |m| join(Some(m))) } else { join(None) };
            for (r, result) in runs.iter().zip(results) { r.check(result); }
        },
    }
    drop(world);
    if let Some(e) = shared.broken.lock().unwrap_or_else(|e| e.into_inner()).first() { return fail(e.clone()); }
    if shared.undecided.load(SeqCst) { return Outcome::Skip("edge of a band"); }
    let total: usize = c.jobs.iter().map(|j| j.count()).sum();
    let mut classes = vec![format!("analyses-{}", total.min(9))];
    c.jobs.iter().for_each(|j| j.kinds(&mut classes));
    for (i, what) in ["accepted", "space-failure", "time-failure"].iter().enumerate() { if shared.endings[i].load(SeqCst) > 0 { classes.push(what.to_string()); } }
    classes.sort();
    classes.dedup();
    pass_multi(total > 1 || c.how == How::Moved, classes)
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C25", rule: "2..: regular, async & CRUD analyses with generated costs, limits and retries, executed one after the other, by stages of other ones (2 levels), in several threads (with generated turns) or suspending each other on one runtime, which may move them to another of its threads at each suspension; nontrivial: more than one analysis, or one that is moved",
        assumptions: vec!["time only passes when the user functions say so: clock_gettime & sleeps of the process are virtual, one clock per thread", "a nested analysis may use up to 512 KiB for itself"],
        subs: vec![Sub::new("nested", 40_000, 2_000_000, nested(), check), Sub::new("sequence", 40_000, 2_000_000, sequence(), check),
            Sub::new("threads", 12_000, 600_000, threads(), check), Sub::new("joined", 60_000, 3_000_000, joined(), check), Sub::new("moved", 30_000, 1_500_000, moved(), check)] },
] }
