//! C07: heap operations of several threads, while windows are open

use crate::schedule::*;
use big_o_test::metrics_allocator::{MetricsAllocator, MetricsAllocatorSavePoint, MetricsAllocatorStatistics};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shim::sched;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering::*};
use vcommon::*;

macro_rules! with_slots {
    ($n: expr, $f: ident, $arg: expr) => { match $n {
        1 => $f::<1>($arg), 2 => $f::<2>($arg), 3 => $f::<3>($arg), 4 => $f::<4>($arg), 5 => $f::<5>($arg), 8 => $f::<8>($arg), 16 => $f::<16>($arg), 1024 => $f::<1024>($arg), n => panic!("no instance for {n}") } }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Heap { Alloc { size: u16, zeroed: bool }, Free { which: u8 }, Realloc { which: u8, size: u16 } }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Measuring { Open, Read { which: u8 }, Close { which: u8 }, Heap(Heap) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { slots: usize, before: Vec<Heap>, threads: Vec<Vec<Heap>>, measuring: Vec<Vec<Measuring>>, after: Vec<Heap>, schedule: Schedule }

fn sizes() -> impl Strategy<Value = u16> { prop_oneof![4 => 1u16..64, 2 => 1u16..2000, 1 => prop_oneof![Just(1u16), Just(2), Just(1024), Just(4096)]] }
fn heap() -> impl Strategy<Value = Heap> {
    prop_oneof![4 => (sizes(), prop::bool::weighted(0.3)).prop_map(|(size, zeroed)| Heap::Alloc { size, zeroed }), 3 => any::<u8>().prop_map(|which| Heap::Free { which }), 2 => (any::<u8>(), sizes()).prop_map(|(which, size)| Heap::Realloc { which, size })]
}
fn measuring() -> impl Strategy<Value = Measuring> {
    prop_oneof![3 => Just(Measuring::Open), 4 => any::<u8>().prop_map(|which| Measuring::Read { which }), 1 => any::<u8>().prop_map(|which| Measuring::Close { which }), 1 => heap().prop_map(Measuring::Heap)]
}
fn case() -> impl Strategy<Value = Case> {
    let slots = prop_oneof![1 => Just(1usize), 1 => Just(2usize), 1 => Just(3usize), 1 => Just(4usize), 1 => Just(5usize), 2 => Just(8usize), 3 => Just(16usize)];
    (slots, prop::collection::vec(heap(), 0..4), prop::collection::vec(prop::collection::vec(heap(), 1..7), 1..4), prop_oneof![2 => prop::collection::vec(prop::collection::vec(measuring(), 1..9), 1..2), 1 => prop::collection::vec(prop::collection::vec(measuring(), 1..6), 2..4)], prop::collection::vec(heap(), 0..4), schedules(250))
        .prop_map(|(slots, before, threads, measuring, after, schedule)| Case { slots, before, threads, measuring, after, schedule })
}

/// what each operation adds to the statistics
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Sums { counts: [u64; 4], bytes: [u64; 5] }
impl Sums {
    fn add(&mut self, o: &Sums) { for i in 0..4 { self.counts[i] += o.counts[i]; } for i in 0..5 { self.bytes[i] += o.bytes[i]; } }
    fn of(s: &MetricsAllocatorStatistics<usize>) -> Sums {
        Sums { counts: [s.allocations_count, s.deallocations_count, s.zeroed_allocations_count, s.reallocations_count].map(|x| x as u64),
               bytes: [s.allocated_bytes, s.deallocated_bytes, s.zeroed_allocated_bytes, s.reallocated_originals_bytes, s.reallocated_news_bytes].map(|x| x as u64) }
    }
    fn within(&self, low: &Sums, high: &Sums) -> bool {
        (0..4).all(|i| low.counts[i] <= self.counts[i] && self.counts[i] <= high.counts[i]) && (0..5).all(|i| low.bytes[i] <= self.bytes[i] && self.bytes[i] <= high.bytes[i])
    }
}

/// an operation of a thread: when, what & how many bytes the thread held before and after it
#[derive(Clone, Copy, Debug)]
struct Entry { began: u64, ended: u64, sums: Sums, before: u64, after: u64 }

/// the blocks of a thread
#[derive(Default)]
struct Blocks { held: Vec<(usize, Layout)>, bytes: u64 }
impl Blocks {
    /// executes it, if possible, giving what it adds
    fn execute(&mut self, a: &dyn GlobalAlloc, op: &Heap) -> Result<Option<Sums>, String> {
        let mut s = Sums::default();
        match *op {
            Heap::Alloc { size, zeroed } => {
                let layout = Layout::from_size_align(size as usize, 8).unwrap();
                let p = catch(|| std::hint::black_box(unsafe { if zeroed { a.alloc_zeroed(layout) } else { a.alloc(layout) } })).map_err(|e| format!("allocating panicked: {e}"))?;
                if p.is_null() { return Err("allocating failed".to_string()); }
                let k = if zeroed { 2 } else { 0 };
                s.counts[k] = 1;
                s.bytes[k] = size as u64;
                self.held.push((p as usize, layout));
                self.bytes += size as u64;
            },
            Heap::Free { which } => {
                if self.held.is_empty() { return Ok(None); }
                let (p, layout) = self.held.remove(which as usize % self.held.len());
                catch(|| unsafe { a.dealloc(p as *mut u8, layout) }).map_err(|e| format!("deallocating panicked: {e}"))?;
                s.counts[1] = 1;
                s.bytes[1] = layout.size() as u64;
                self.bytes -= layout.size() as u64;
            },
            Heap::Realloc { which, size } => {
                if self.held.is_empty() { return Ok(None); }
                let i = which as usize % self.held.len();
                let (p, layout) = self.held[i];
                let n = catch(|| unsafe { a.realloc(p as *mut u8, layout, size as usize) }).map_err(|e| format!("reallocating panicked: {e}"))?;
                if n.is_null() { return Err("reallocating failed".to_string()); }
                self.held[i] = (n as usize, Layout::from_size_align(size as usize, 8).unwrap());
                s.counts[3] = 1;
                s.bytes[3] = layout.size() as u64;
                s.bytes[4] = size as u64;
                self.bytes = self.bytes - layout.size() as u64 + size as u64;
            },
        }
        Ok(Some(s))
    }
    fn possible(&self, op: &Heap) -> bool { matches!(op, Heap::Alloc { .. }) || !self.held.is_empty() }
}

struct Window<'a, const N: usize> { point: MetricsAllocatorSavePoint<'a, N>, opened: (u64, u64), closed: bool }
struct Reading { opened: (u64, u64), read: (u64, u64), before: u64, result: Result<(Sums, u64, u64, u64), String> }
#[derive(Default)]
struct Shared {
    clock: u64, logs: Vec<Vec<Entry>>, readings: Vec<Reading>, wrong: Option<String>,
    /// levels reported by the opening of windows & by readings: (began, ended, level)
    reported: Vec<(u64, u64, u64)>,
    /// (began, ended) of each opening of a window
    opens: Vec<(u64, u64)>,
}
impl Shared { fn tick(&mut self) -> u64 { self.clock += 1; self.clock } }

fn run_op(sh: &RefCell<Shared>, thread: usize, blocks: &mut Blocks, a: &dyn GlobalAlloc, op: &Heap) {
    if !blocks.possible(op) { return; }
    let (before, began) = (blocks.bytes, sh.borrow_mut().tick());
    // what is in flight must be known to the judge even if the operation never ends: it does end, or the case fails
    match blocks.execute(a, op) {
        Ok(Some(sums)) => { let mut s = sh.borrow_mut(); let ended = s.tick(); s.logs[thread].push(Entry { began, ended, sums, before, after: blocks.bytes }); },
        Ok(None) => (),
        Err(e) => { sh.borrow_mut().wrong.get_or_insert(e); },
    }
}

fn read<const N: usize>(sh: &RefCell<Shared>, a: &MetricsAllocator<N>, w: &Window<N>) {
    let r0 = sh.borrow_mut().tick();
    let result = catch(|| a.delta_statistics(&w.point).map(|s| (Sums::of(&s), s.current_used_memory as u64, s.min_used_memory as u64, s.max_used_memory as u64)).map_err(|e| e.to_string()));
    let mut s = sh.borrow_mut();
    let r1 = s.tick();
    match result {
        Err(panic) => { s.wrong.get_or_insert(format!("reading a window panicked: {panic}")); },
        Ok(result) => {
            if let Ok((_, now, _, _)) = result { s.reported.push((r0, r1, now)); }
            s.readings.push(Reading { opened: w.opened, read: (r0, r1), before: w.point.metrics.current_used_memory as u64, result })
        },
    }
}
fn open<'a, const N: usize>(sh: &RefCell<Shared>, a: &'a MetricsAllocator<'a, N>) -> Option<Window<'a, N>> {
    let s0 = sh.borrow_mut().tick();
    match catch(|| a.save_point()) {
        Err(panic) => { sh.borrow_mut().wrong.get_or_insert(format!("opening a window panicked: {panic}")); None },
        Ok(point) => {
            let mut s = sh.borrow_mut();
            let s1 = s.tick();
            s.opens.push((s0, s1));
            s.reported.push((s0, s1, point.metrics.current_used_memory as u64));
            Some(Window { point, opened: (s0, s1), closed: false })
        },
    }
}

fn run_case<const N: usize>(c: &Case) -> Result<(sched::Report, usize), String> {
    let allocator = Box::new(MetricsAllocator::<N>::new());
    let a = &*allocator;
    let (workers, n) = (c.threads.len(), c.threads.len() + c.measuring.len());
    let sh = RefCell::new(Shared { logs: (0..n).map(|_| vec![]).collect(), ..Shared::default() });
    let blocks: Vec<RefCell<Blocks>> = (0..n).map(|_| RefCell::default()).collect();
    // each thread starts with its part of what was allocated before
    for (i, op) in c.before.iter().enumerate() { run_op(&sh, i % n, &mut blocks[i % n].borrow_mut(), a, op); }
    let Some(outer) = open(&sh, a) else { return Err(sh.into_inner().wrong.unwrap()) };
    let windows: Vec<RefCell<Vec<Window<N>>>> = c.measuring.iter().map(|_| RefCell::default()).collect();
    let (sh_ref, blocks_ref, outer) = (&sh, &blocks, &outer);
    let mut bodies: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for (t, ops) in c.threads.iter().enumerate() {
        bodies.push(Box::new(move || for op in ops { run_op(sh_ref, t, &mut blocks_ref[t].borrow_mut(), a, op); sched::step(); }));
    }
    for (k, ops) in c.measuring.iter().enumerate() {
        let windows = &windows[k];
        bodies.push(Box::new(move || {
            for m in ops {
                match m {
                    Measuring::Open => { let w = open(sh_ref, a); windows.borrow_mut().extend(w); },
                    Measuring::Heap(op) => run_op(sh_ref, workers + k, &mut blocks_ref[workers + k].borrow_mut(), a, op),
                    Measuring::Read { which } | Measuring::Close { which } => {
                        let mut ws = windows.borrow_mut();
                        let i = *which as usize % (ws.len() + 1);
                        if i == ws.len() { read(sh_ref, a, outer); } else {
                            if !ws[i].closed { read(sh_ref, a, &ws[i]); }
                            if matches!(m, Measuring::Close { .. }) { ws[i].closed = true; }
                        }
                    },
                }
                sched::step();
            }
            // whatever is still open
            for w in windows.borrow().iter().filter(|w| !w.closed).chain([outer]) { read(sh_ref, a, w); }
        }));
    }
    let report = sched::run(c.schedule.get(), 60_000, bodies);
    if let Some(p) = report.panics.first() { return Err(format!("thread {} panicked: {}", p.0, p.1)); }
    if let Some(w) = sh.borrow_mut().wrong.take() { return Err(w); }
    if !report.stuck.is_empty() { return Err(format!("threads {:?} didn't end after {} steps", report.stuck, report.steps)); }
    // at rest
    let all = || { for ws in &windows { for w in ws.borrow().iter() { read(&sh, a, w); } } read(&sh, a, outer); };
    all();
    let at_rest = open(&sh, a);
    if let Some(w) = at_rest {
        let total = |sh: &RefCell<Shared>| { let mut t = Sums::default(); for e in sh.borrow().logs.iter().flatten() { t.add(&e.sums); } t };
        let seen = Sums::of(&w.point.metrics);
        if seen != total(&sh) { return Err(format!("the threads did {:?}, but {seen:?} was accounted for", total(&sh))); }
        let held: u64 = blocks.iter().map(|b| b.borrow().bytes).sum();
        ensure_r!(w.point.metrics.current_used_memory as u64 == held, "the threads hold {held} bytes, but {} are accounted for", w.point.metrics.current_used_memory);
        for (i, op) in c.after.iter().enumerate() { run_op(&sh, i % n, &mut blocks[i % n].borrow_mut(), a, op); }
        read(&sh, a, &w);
    }
    all();
    for b in &blocks { while b.borrow().bytes > 0 { b.borrow_mut().execute(a, &Heap::Free { which: 0 })?; } }
    if let Some(w) = sh.borrow_mut().wrong.take() { return Err(w); }
    let sh = sh.into_inner();
    for r in &sh.readings { judge::<N>(r, &sh)?; }
    let last = a.save_point();
    ensure_r!(last.metrics.current_used_memory == 0, "everything was freed, but {} bytes are accounted for", last.metrics.current_used_memory);
    Ok((report, sh.readings.len()))
}

/// the least and the most a thread held at that instant
fn held(log: &[Entry], at: u64) -> (u64, u64) {
    let i = log.partition_point(|e| e.ended <= at);
    let settled = if i == 0 { log.first().map(|e| e.before).unwrap_or(0) } else { log[i - 1].after };
    match log.get(i) { Some(e) if e.began <= at => (e.before.min(e.after), e.before.max(e.after)), _ => (settled, settled) }
}
fn level(logs: &[Vec<Entry>], at: u64) -> (u64, u64) { logs.iter().map(|l| held(l, at)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)) }
/// instants, of [from, to], in which bounds may change
fn instants(logs: &[Vec<Entry>], from: u64, to: u64) -> Vec<u64> {
    logs.iter().flatten().flat_map(|e| [e.began, e.ended]).filter(|t| *t > from && *t < to).chain([from, to]).collect()
}
/// bounds for a level read at any instant of [from, to]
fn levels(logs: &[Vec<Entry>], from: u64, to: u64) -> (u64, u64) { instants(logs, from, to).into_iter().map(|t| level(logs, t)).reduce(|a, b| (a.0.min(b.0), a.1.max(b.1))).unwrap() }

fn judge<const N: usize>(r: &Reading, sh: &Shared) -> Result<(), String> {
    let (logs, reported) = (&sh.logs, &sh.reported);
    let (s0, s1, r0, r1) = (r.opened.0, r.opened.1, r.read.0, r.read.1);
    // windows opened after this one, at least and at most
    let least = sh.opens.iter().filter(|o| o.0 > s1 && o.1 < r0).count();
    let most = sh.opens.iter().filter(|o| o.1 > s0 && o.0 < r1 && o.0 != s0).count();
    let (sums, now, low, high) = match &r.result {
        Err(e) => { ensure_r!(most > N, "a window with no more than {most} others opened after it (of {N} possible) failed: {e}"); return Ok(()); },
        Ok(x) => { ensure_r!(least <= N, "a window with {least} others opened after it (of {N} possible) didn't fail"); *x },
    };
    let story = || format!("window opened in {:?} and read in {:?}: {sums:?}, before: {}, now: {now}, low: {low}, high: {high}; operations of each thread: {logs:?}", r.opened, r.read, r.before);
    ensure_r!(low <= r.before && low <= now && high >= r.before && high >= now, "inconsistent: {}", story());
    let (mut inside, mut touching) = (Sums::default(), Sums::default());
    for e in logs.iter().flatten() {
        if e.began > s1 && e.ended < r0 { inside.add(&e.sums); }
        if e.ended > s0 && e.began < r1 { touching.add(&e.sums); }
    }
    ensure_r!(sums.within(&inside, &touching), "between {inside:?} and {touching:?} were due: {}", story());
    let (l, h) = levels(logs, s0, s1);
    ensure_r!(l <= r.before && r.before <= h, "the level at the start was in {l}..={h}: {}", story());
    let (l, h) = levels(logs, r0, r1);
    ensure_r!(l <= now && now <= h, "the level at the end was in {l}..={h}: {}", story());
    // surely reached inside of it
    for t in instants(logs, s1, r0) {
        let (l, h) = level(logs, t);
        ensure_r!(high >= l, "a level of (at least) {l} was reached at {t}: {}", story());
        ensure_r!(low <= h, "a level of (at most) {h} was reached at {t}: {}", story());
    }
    // reported inside of it, once whatever could have been in flight by then ended
    for (began, ended, x) in reported.iter().filter(|x| x.0 > s1 && x.1 < r0) {
        if logs.iter().flatten().any(|e| e.began < *ended && e.ended > r0) { continue; }
        ensure_r!(low <= *x && *x <= high, "a level of {x} was reported between {began} & {ended}: {}", story());
    }
    // possibly reached inside of it, or by operations in flight when it was opened
    let from = logs.iter().flatten().filter(|e| e.began < s0 && e.ended > s0).map(|e| e.began).min().unwrap_or(s0);
    let (l, h) = levels(logs, from, r1);
    ensure_r!(l <= low && high <= h, "no level outside of {l}..={h} was possible: {}", story());
    Ok(())
}

fn check(c: &Case) -> Outcome {
    match with_slots!(c.slots, run_case, c) {
        Err(e) => fail(e),
        Ok((report, readings)) => {
            let classes = vec![format!("{} threads + {} measuring", c.threads.len(), c.measuring.len()),
                format!("{} windows", match c.measuring.iter().flatten().filter(|m| matches!(m, Measuring::Open)).count() { 0 => "1", 1 => "2", 2 | 3 => "3..4", _ => "5.." }),
                format!("{} switches", match report.switches { 0..=9 => "0..9", 10..=49 => "10..49", 50..=199 => "50..199", _ => "200.." }),
                format!("{} readings", match readings { 0..=4 => "0..4", 5..=9 => "5..9", _ => "10.." })];
            pass_multi(report.switches > (c.threads.len() + c.measuring.len()) as u64 + 2, classes)
        },
    }
}

// ---- real threads ---------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stress { threads: Vec<u16>, seed: u64, nested: Vec<u8> }
fn stress() -> impl Strategy<Value = Stress> { (prop::collection::vec(0u16..4000, 1..6), any::<u64>(), prop::collection::vec(0u8..6, 1..3)).prop_map(|(threads, seed, nested)| Stress { threads, seed, nested }) }

fn check_stress(c: &Stress) -> Outcome {
    let allocator = Box::new(MetricsAllocator::<1024>::new());
    let a = &*allocator;
    let outer = a.save_point();
    let stop = AtomicBool::new(false);
    let mut wrong: Option<String> = None;
    let results: Vec<Result<(Sums, u64), String>> = std::thread::scope(|scope| {
        let workers: Vec<_> = c.threads.iter().enumerate().map(|(t, n)| scope.spawn(move || {
            let mut x = c.seed ^ (t as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
            let mut rnd = || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
            let (mut blocks, mut total, mut peak) = (Blocks::default(), Sums::default(), 0u64);
            let run = |blocks: &mut Blocks, total: &mut Sums, op: &Heap| -> Result<(), String> { if let Some(s) = blocks.execute(a, op)? { total.add(&s); } Ok(()) };
            for _ in 0..*n {
                let (r, size) = (rnd(), (rnd() % 3000 + 1) as u16);
                let op = match r % 8 { 0..=2 => Heap::Alloc { size, zeroed: r % 16 > 8 }, 3..=5 => Heap::Free { which: (r >> 8) as u8 }, _ => Heap::Realloc { which: (r >> 8) as u8, size } };
                run(&mut blocks, &mut total, &op)?;
                peak = peak.max(blocks.bytes);
            }
            while blocks.bytes > 0 { run(&mut blocks, &mut total, &Heap::Free { which: 0 })?; }
            Ok((total, peak))
        })).collect();
        // no more points than what `outer` can see
        let stop = &stop;
        let measuring: Vec<_> = c.nested.iter().map(|nested| scope.spawn(move || -> Result<(), String> {
            let mut opened = 0;
            let mut windows = vec![];
            while !stop.load(SeqCst) {
                if windows.len() <= *nested as usize && opened < 500 { windows.push(catch(|| a.save_point()).map_err(|e| format!("opening a window panicked: {e}"))?); opened += 1; }
                for w in &windows {
                    let d = catch(|| a.delta_statistics(w)).map_err(|e| format!("reading a window panicked: {e}"))?.map_err(|e| format!("reading a window failed: {e}"))?;
                    let before = w.metrics.current_used_memory;
                    ensure_r!(d.min_used_memory <= before && d.min_used_memory <= d.current_used_memory && d.max_used_memory >= before && d.max_used_memory >= d.current_used_memory, "an inconsistent window: {d}, opened with {before} in use");
                    ensure_r!(d.max_used_memory < 1 << 40, "impossible: {d}");
                }
                if windows.len() > *nested as usize { windows.remove((opened * 7) % windows.len()); }
                std::thread::yield_now();
            }
            Ok(())
        })).collect();
        let results = workers.into_iter().map(|w| w.join().unwrap_or_else(|_| Err("a thread panicked".to_string()))).collect();
        stop.store(true, SeqCst);
        for m in measuring { match m.join() { Ok(Ok(())) => (), Ok(Err(e)) => wrong = Some(e), Err(_) => wrong = Some("a measuring thread panicked".to_string()) } }
        results
    });
    if let Some(w) = wrong { return fail(w); }
    let (mut total, mut peaks, mut peak) = (Sums::default(), 0, 0);
    for r in results { match r { Err(e) => return fail(e), Ok((s, p)) => { total.add(&s); peaks += p; peak = peak.max(p); } } }
    let d = match catch(|| a.delta_statistics(&outer)) { Ok(Ok(d)) => d, other => return fail(format!("reading the outer window: {:?}", other.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))) };
    ensure!(Sums::of(&d) == total, "the threads did {total:?}, but {:?} was accounted for", Sums::of(&d));
    ensure!(d.current_used_memory == 0 && d.min_used_memory == 0, "everything was freed: {d}");
    ensure!(d.max_used_memory as u64 >= peak && d.max_used_memory as u64 <= peaks, "the peaks of each thread sum {peaks}, the highest was {peak}: {d}");
    pass(c.threads.iter().filter(|n| **n > 100).count() > 1, format!("{} threads + {} measuring", c.threads.len(), c.nested.len()))
}

pub fn schedules_sub(quick: u64, thorough: u64) -> Sub { Sub::new("schedules", quick, thorough, case(), check) }

pub fn prop() -> Prop {
    Prop { id: "C07", rule: "1-3 threads of heap operations plus 1-3 which open, read and close (nested) windows, on a private allocator with few slots for windows, under a generated schedule; nontrivial: the threads really interleaved. Real threads: at least two with more than 100 operations",
        assumptions: vec!["atomic accesses are interleaved one at a time (sequentially consistent values)"],
        subs: vec![schedules_sub(600_000, 40_000_000), Sub::new("threads", 2_000, 100_000, stress(), check_stress)] }
}
