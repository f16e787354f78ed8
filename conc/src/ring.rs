//! C10: concurrent producers and consumers of the ring buffer

use crate::schedule::*;
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shim::sched;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use vcommon::*;

macro_rules! with_capacity {
    ($n: expr, $f: ident, $arg: expr) => { match $n {
        1 => $f::<1>($arg), 2 => $f::<2>($arg), 3 => $f::<3>($arg), 4 => $f::<4>($arg), 5 => $f::<5>($arg), 8 => $f::<8>($arg), 16 => $f::<16>($arg),
        64 => $f::<64>($arg), 256 => $f::<256>($arg), 1000 => $f::<1000>($arg), 4096 => $f::<4096>($arg), n => panic!("no instance for {n}") } }
}

const SEAL: u64 = 0x5ea1_ed00_cafe_f00d;
const PREWARM: u64 = 99;
/// an element knows who enqueued it & whether it is alive
struct Element { id: u64, seal: u64, filler: [u64; 4] }
impl Element {
    fn new(producer: u64, seq: u64) -> Element { let id = producer << 32 | seq; Element { id, seal: id ^ SEAL, filler: [id.wrapping_mul(3), !id, id << 7, id] } }
    /// (producer, sequence) -- without believing in anything read from memory
    fn check(&self) -> Result<(u64, u64), String> {
        let p = self as *const Element;
        unsafe {
            let (id, seal, filler) = ((&raw const (*p).id).read_volatile(), (&raw const (*p).seal).read_volatile(), (&raw const (*p).filler).read_volatile());
            if seal == !SEAL { return Err(format!("an element already dropped ({}, {})", id >> 32, id & 0xffffffff)); }
            if seal != id ^ SEAL || filler != [id.wrapping_mul(3), !id, id << 7, id] { return Err(format!("memory which isn't a fully written element (id: {id:#x}, seal: {seal:#x})")); }
            Ok((id >> 32, id & 0xffffffff))
        }
    }
}
thread_local! { static BAD_DROP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
impl Drop for Element {
    fn drop(&mut self) {
        if !sched::active() { return; }
        unsafe {
            let p = self as *mut Element;
            let (id, seal) = ((&raw const (*p).id).read_volatile(), (&raw const (*p).seal).read_volatile());
            if seal != id ^ SEAL { BAD_DROP.with(|b| b.set(true)); }
            (&raw mut (*p).seal).write_volatile(!SEAL);
        }
        // slots are overwritten in more than one instant
        sched::step();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Group { threads: u8, late: bool, peeks: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { size: usize, prewarm: u8, backlog: u8, producers: Vec<u8>, groups: Vec<Group>, overflowing: bool, attempts: u8, schedule: Schedule }

fn case() -> impl Strategy<Value = Case> {
    let size = prop_oneof![1 => Just(1usize), 2 => Just(2usize), 2 => Just(3usize), 3 => Just(4usize), 1 => Just(5usize), 2 => Just(8usize)];
    let group = (prop_oneof![3 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8)], prop::bool::weighted(0.2), prop_oneof![4 => Just(0u8), 1 => 1u8..4]).prop_map(|(threads, late, peeks)| Group { threads, late, peeks });
    (size, 0u8..20, 0u8..5, prop::collection::vec(0u8..7, 1..4), prop_oneof![3 => prop::collection::vec(group.clone(), 1..2), 1 => prop::collection::vec(group, 2..3)], prop::bool::weighted(0.3), 1u8..10, schedules(250))
        .prop_map(|(size, prewarm, backlog, producers, groups, overflowing, attempts, schedule)| Case { size, prewarm, backlog: backlog.min(size as u8).min(prewarm), producers, groups, overflowing, attempts, schedule })
}

impl Case {
    /// whether loads may see older values
    fn weak(&self) -> bool { !self.schedule.stale.is_empty() }
}
/// no overflow, no consumers created meanwhile (what these are due depends on which of the older values is seen): loads may see older values
fn weak_case() -> impl Strategy<Value = Case> {
    (case(), prop::collection::vec((prop_oneof![3 => 0u8..4, 1 => 0u8..30], any::<u8>()), 1..30), prop::collection::vec(prop_oneof![1 => Just(0u8), 2 => 1u8..5], 3)).prop_map(|(mut c, stale, peeks)| {
        c.overflowing = false;
        c.schedule.stale = stale;
        for (g, peeks) in c.groups.iter_mut().zip(peeks) { g.late = false; g.peeks = peeks; }
        c
    })
}

/// one event of a consumer thread: what an attempt to dequeue gave
#[derive(Clone, Copy, Debug, PartialEq)]
enum Got { Nothing, Element(u64, u64), Overflow }

#[derive(Default)]
struct GroupState {
    /// (thread, began, ended, got)
    attempts: Vec<(usize, u64, u64, Got)>,
    /// received so far & (for the gate) counted as read, on top of `baseline`
    received: u64,
    read: u64,
    baseline: u64,
    /// creation of late groups
    created: Option<(u64, u64)>,
    in_flight: Vec<Option<u64>>,
}
#[derive(Default)]
struct Shared {
    clock: u64,
    started: u64,
    finished: u64,
    producers_left: usize,
    /// (began, ended) of each enqueue
    enqueues: HashMap<(u64, u64), (u64, u64)>,
    /// an instant before the element was written
    written: HashMap<(u64, u64), (usize, u32)>,
    groups: Vec<GroupState>,
    readers: sched::Clock,
    producers: sched::Clock,
    wrong: Option<String>,
}
impl Shared {
    fn tick(&mut self) -> u64 { self.clock += 1; self.clock }
    fn blame(&mut self, msg: String) { if self.wrong.is_none() { self.wrong = Some(msg); } }
    /// the oldest position that may still be in use -- conservatively
    fn oldest(&self) -> u64 {
        self.groups.iter().map(|g| g.in_flight.iter().flatten().copied().fold(g.baseline + g.read, u64::min)).min().unwrap_or(u64::MAX)
    }
}

fn examine(sh: &RefCell<Shared>, e: &Element, doing: &str) -> Option<(u64, u64)> {
    match e.check() {
        Err(wrong) => { sh.borrow_mut().blame(format!("{doing} gave {wrong}")); None },
        Ok(x) => {
            if x.0 != PREWARM {
                let written = sh.borrow().written.get(&x).copied();
                match written {
                    None => sh.borrow_mut().blame(format!("{doing} gave {x:?}, not enqueued yet")),
                    Some(w) => if !sched::knows(w) { sh.borrow_mut().blame(format!("{doing} gave {x:?}, but nothing makes what was written by the producer visible to the consumer (no happens-before relation)")); },
                }
            }
            Some(x)
        },
    }
}

fn run_case<const N: usize>(c: &Case) -> Result<(sched::Report, Shared), String> {
    let ring: Box<RingBuffer<Element, N>> = Box::new(RingBuffer::new());
    let prewarm = c.prewarm as u64;
    for i in 0..prewarm - c.backlog as u64 { ring.enqueue(Element::new(PREWARM, i)); }
    let early: Vec<Option<RingBufferConsumer<Element, N>>> = c.groups.iter().map(|g| if g.late { None } else { Some(ring.consumer()) }).collect();
    for i in prewarm - c.backlog as u64..prewarm { ring.enqueue(Element::new(PREWARM, i)); }
    let late: Vec<RefCell<Option<RingBufferConsumer<Element, N>>>> = c.groups.iter().map(|_| RefCell::new(None)).collect();

    let sh = RefCell::new(Shared { producers_left: c.producers.len(), started: prewarm, finished: prewarm, ..Shared::default() });
    for g in &c.groups {
        sh.borrow_mut().groups.push(GroupState { baseline: if g.late { u64::MAX / 2 } else { prewarm - c.backlog as u64 }, in_flight: vec![None; g.threads as usize], ..GroupState::default() });
    }
    // late groups only count (for the gate) from the moment they start being created
    let total: u64 = c.producers.iter().map(|n| *n as u64).sum();
    let (ring, sh_ref, early_ref, late_ref) = (&*ring, &sh, &early, &late);
    let mut bodies: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for (p, n) in c.producers.iter().enumerate() {
        bodies.push(Box::new(move || {
            for seq in 0..*n as u64 {
                if !c.overflowing {
                    // don't overrun: what is overwritten has been fully used by every consumer -- and the producer knows it
                    loop {
                        let s = sh_ref.borrow();
                        let oldest = s.oldest();
                        if s.started < oldest.saturating_add(N as u64) { sched::learn(&s.readers); break; }
                        drop(s);
                        sched::yield_now();
                    }
                }
                let key = (p as u64, seq);
                let began = {
                    let mut s = sh_ref.borrow_mut();
                    s.started += 1;
                    let w = sched::event();
                    s.written.insert(key, w);
                    s.tick()
                };
                ring.enqueue(Element::new(p as u64, seq));
                let mut s = sh_ref.borrow_mut();
                s.finished += 1;
                let ended = s.tick();
                s.enqueues.insert(key, (began, ended));
            }
            let mut s = sh_ref.borrow_mut();
            s.producers_left -= 1;
            sched::teach(&mut s.producers);
        }));
    }
    let first_consumer = c.producers.len();
    _ = first_consumer;
    for (gi, g) in c.groups.iter().enumerate() {
        for t in 0..g.threads as usize {
            bodies.push(Box::new(move || {
                if g.late {
                    if t == 0 {
                        // (what is being enqueued by now must fit the buffer)
                        while !c.overflowing && { let s = sh_ref.borrow(); s.started - s.finished > N as u64 } { sched::yield_now(); }
                        let began = {
                            let mut s = sh_ref.borrow_mut();
                            // in use from now on
                            s.groups[gi].baseline = s.finished;
                            s.tick()
                        };
                        let consumer = ring.consumer();
                        *late_ref[gi].borrow_mut() = Some(consumer);
                        let mut s = sh_ref.borrow_mut();
                        let ended = s.tick();
                        s.groups[gi].created = Some((began, ended));
                        sched::teach(&mut s.readers);
                    } else {
                        while late_ref[gi].borrow().is_none() { sched::yield_now(); }
                    }
                }
                // safe: set once, before being used
                let consumer: &RingBufferConsumer<Element, N> = match &early_ref[gi] { Some(x) => x, None => unsafe { (*late_ref[gi].as_ptr()).as_ref().unwrap() } };
                let mut peeks = if t == 0 { g.peeks } else { 0 };
                let mut attempts = 0u32;
                loop {
                    if peeks > 0 && !c.overflowing {
                        peeks -= 1;
                        {
                            let mut s = sh_ref.borrow_mut();
                            let at = s.groups[gi].baseline + s.groups[gi].read;
                            s.groups[gi].in_flight[t] = Some(at);
                            if c.weak() { sched::learn(&s.readers); }
                        }
                        match consumer.peek_all() {
                            Err(e) => sh_ref.borrow_mut().blame(format!("peeking failed, without any overflow: {e}")),
                            Ok(chunks) => {
                                let mut last: HashMap<u64, u64> = HashMap::new();
                                let mut count = 0;
                                for e in chunks.iter().flat_map(|c| c.iter()) {
                                    count += 1;
                                    let Some((p, seq)) = examine(sh_ref, e, "peeking") else { break };
                                    if last.get(&p).is_some_and(|l| *l + 1 != seq) { sh_ref.borrow_mut().blame(format!("peeking gave {} of producer {p} after {}", seq, last[&p])); }
                                    last.insert(p, seq);
                                }
                                if count > N { sh_ref.borrow_mut().blame(format!("peeking gave {count} elements of a buffer for {N}")); }
                            },
                        }
                        let mut s = sh_ref.borrow_mut();
                        s.groups[gi].in_flight[t] = None;
                        sched::teach(&mut s.readers);
                    }
                    let (began, producers_done, settled) = {
                        let mut s = sh_ref.borrow_mut();
                        let at = s.groups[gi].baseline + s.groups[gi].read;
                        s.groups[gi].in_flight[t] = Some(at);
                        if c.weak() { sched::learn(&s.readers); sched::learn(&s.producers); }
                        (s.tick(), s.producers_left == 0, if s.started == s.finished { s.started } else { u64::MAX })
                    };
                    let got = match consumer.dequeue() {
                        Err(_) => Got::Overflow,
                        Ok(None) => Got::Nothing,
                        Ok(Some(e)) => {
                            let x = examine(sh_ref, e, "dequeueing");
                            // the reference is good for as long as there is no overflow
                            if !c.overflowing {
                                sched::step();
                                if e.check().ok() != x { sh_ref.borrow_mut().blame(format!("the element {x:?} changed while the consumer was using it")); }
                            }
                            match x { Some((p, s)) => Got::Element(p, s), None => return }
                        },
                    };
                    {
                        let mut s = sh_ref.borrow_mut();
                        let ended = s.tick();
                        let group = &mut s.groups[gi];
                        group.attempts.push((t, began, ended, got));
                        group.in_flight[t] = None;
                        if matches!(got, Got::Element(..)) { group.received += 1; group.read += 1; }
                        // (elements may have been enqueued while the consumer was being created: it wasn't necessarily due all since then)
                        if g.late && got == Got::Nothing && group.in_flight.iter().all(|f| f.is_none()) && s.started == s.finished && s.started == settled {
                            let s = &mut *s;
                            s.groups[gi].baseline = s.finished - s.groups[gi].read;
                        }
                        sched::teach(&mut s.readers);
                    }
                    attempts += 1;
                    if c.overflowing {
                        if attempts >= c.attempts as u32 { break; }
                        if got == Got::Nothing { sched::yield_now(); }
                    } else {
                        if got == Got::Overflow { sh_ref.borrow_mut().blame("a consumer failed, without any overflow".to_string()); break; }
                        if got == Got::Nothing {
                            if producers_done { break; }
                            sched::yield_now();
                        }
                    }
                }
                // whoever ends doesn't hold producers
                if c.overflowing { return; }
            }));
        }
    }
    let mut schedule = c.schedule.get();
    // (the atomics of the ring and of its consumers)
    let range = |from: usize, len: usize| (from, from + len);
    schedule.weak = vec![range(ring as *const _ as usize, std::mem::size_of_val(ring)), range(early.as_ptr() as usize, std::mem::size_of_val(&early[..]))];
    let report = sched::run(schedule, 60_000, bodies);
    if BAD_DROP.with(|b| b.replace(false)) { return Err("a slot was dropped while not holding a live element".to_string()); }
    if let Some(p) = report.panics.first() { return Err(format!("thread {} panicked: {}", p.0, p.1)); }
    if let Some(w) = sh.borrow_mut().wrong.take() { return Err(w); }
    if !report.stuck.is_empty() { return Err(format!("threads {:?} didn't end after {} steps", report.stuck, report.steps)); }
    drop(late);
    let sh = sh.into_inner();
    judge(c, &sh, total)?;
    Ok((report, sh))
}

/// the histories of all groups, at the end
fn judge(c: &Case, sh: &Shared, total: u64) -> Result<(), String> {
    let mut orders: Vec<Vec<(u64, u64)>> = vec![];
    for (gi, (g, state)) in c.groups.iter().zip(&sh.groups).enumerate() {
        let received: Vec<(u64, u64)> = state.attempts.iter().filter_map(|a| if let Got::Element(p, s) = a.3 { Some((p, s)) } else { None }).collect();
        let mut sorted = received.clone();
        sorted.sort();
        let before = sorted.len();
        sorted.dedup();
        ensure_r!(before == sorted.len(), "consumer #{gi} received some elements twice: {received:?}");
        // each thread sees the elements of each producer in order, without ... having missed what nobody else got
        for t in 0..g.threads as usize {
            let mut last: HashMap<u64, u64> = HashMap::new();
            for a in state.attempts.iter().filter(|a| a.0 == t) {
                if let Got::Element(p, s) = a.3 {
                    if let Some(l) = last.get(&p) { ensure_r!(*l < s, "a thread of consumer #{gi} received #{s} of producer {p} after #{l}: {:?}", state.attempts); }
                    last.insert(p, s);
                }
            }
        }
        // what was received of each producer is contiguous ...
        let mut by_producer: HashMap<u64, Vec<u64>> = HashMap::new();
        for (p, s) in &sorted { by_producer.entry(*p).or_default().push(*s); }
        // (threads sharing a consumer may have had the elements between these overrun)
        let failures = if g.threads > 1 { state.attempts.iter().filter(|a| a.3 == Got::Overflow).count() as u64 } else { 0 };
        for (p, seqs) in &by_producer { ensure_r!(seqs[seqs.len() - 1] - seqs[0] < seqs.len() as u64 + failures, "consumer #{gi} received only {seqs:?} of producer {p}"); }
        // ... and starts where it should
        let prewarm = c.prewarm as u64;
        for (p, seqs) in &by_producer {
            if *p == PREWARM {
                ensure_r!(!g.late && (failures > 0 || seqs[0] == prewarm - c.backlog as u64), "consumer #{gi} received old elements: {seqs:?}");
            } else if let Some((began, _)) = state.created {
                let first = sh.enqueues[&(*p, seqs[0])];
                ensure_r!(first.1 > began, "consumer #{gi} received #{} of producer {p}, enqueued before it was created", seqs[0]);
            } else if failures == 0 {
                ensure_r!(seqs[0] == 0, "consumer #{gi} missed the first elements of producer {p}: {seqs:?}");
            }
        }
        let overflow = state.attempts.iter().filter(|a| a.3 == Got::Overflow).min_by_key(|a| a.2);
        if let Some(f) = overflow {
            let after = state.attempts.iter().find(|a| a.1 > f.2 && a.3 != Got::Overflow);
            ensure_r!(after.is_none(), "consumer #{gi} worked again after having failed: {after:?}");
            let produced = total + c.backlog as u64;
            ensure_r!(produced > c.size as u64, "consumer #{gi} failed, but only {produced} elements were there for a buffer of {}", c.size);
        }
        if !c.overflowing {
            // everything due arrived
            for (p, n) in c.producers.iter().enumerate() {
                let got = by_producer.get(&(p as u64)).map(|s| s.len() as u64).unwrap_or(0);
                let due = match state.created {
                    None => *n as u64,
                    Some((_, ended)) => (0..*n as u64).filter(|s| sh.enqueues[&(p as u64, *s)].0 > ended).count() as u64,
                };
                ensure_r!(got >= due, "consumer #{gi} received only {got} of {due} elements of producer {p}: {received:?}");
                if got > 0 { ensure_r!(by_producer[&(p as u64)].last() == Some(&(*n as u64 - 1)), "consumer #{gi} missed the last elements of producer {p}: {received:?}"); }
            }
            if !g.late { ensure_r!(received.len() as u64 == total + c.backlog as u64, "consumer #{gi} received {} of {} elements", received.len(), total + c.backlog as u64); }
        }
        if g.threads == 1 {
            // elements enqueued one after the other are received in that order
            for (i, a) in received.iter().enumerate() {
                for b in &received[i + 1..] {
                    if let (Some(ea), Some(eb)) = (sh.enqueues.get(a), sh.enqueues.get(b)) { ensure_r!(ea.0 < eb.1, "consumer #{gi} received {a:?} before {b:?}, although {b:?} was enqueued before {a:?} started being"); }
                }
            }
            if !g.late { orders.push(received); }
        }
    }
    // all consumers see the same order
    if let [a, b] = &orders[..] { let n = a.len().min(b.len()); ensure_r!(a[..n] == b[..n], "two consumers saw different orders: {a:?} & {b:?}"); }
    Ok(())
}

fn check(c: &Case) -> Outcome {
    match with_capacity!(c.size, run_case, c) {
        Err(e) => fail(e),
        Ok((report, sh)) => {
            let received: u64 = sh.groups.iter().map(|g| g.received).sum();
            let failed = sh.groups.iter().any(|g| g.attempts.iter().any(|a| a.3 == Got::Overflow));
            let threads = c.producers.iter().filter(|n| **n > 0).count() + c.groups.iter().map(|g| g.threads as usize).sum::<usize>();
            let mut classes = vec![format!("{}{} producers, {} consuming threads", if c.overflowing { "overflow: " } else { "" }, c.producers.iter().filter(|n| **n > 0).count(), c.groups.iter().map(|g| g.threads as usize).sum::<usize>())];
            if failed { classes.push("failed by overflow".to_string()); }
            if c.groups.iter().any(|g| g.late) { classes.push("with consumers created meanwhile".to_string()); }
            if c.weak() { classes.push(format!("{} loads of older values", match report.stale_loads { 0 => "0", 1..=4 => "1..4", _ => "5.." })); }
            classes.push(format!("{} switches", match report.switches { 0..=9 => "0..9", 10..=49 => "10..49", 50..=199 => "50..199", _ => "200.." }));
            pass_multi(received > 1 && threads > 2 && report.switches > threads as u64 + 2, classes)
        },
    }
}

// ---- real threads ---------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stress { size: usize, producers: Vec<u16>, groups: Vec<u8>, per_dequeue: u8, pause: u8 }
fn stress() -> impl Strategy<Value = Stress> {
    (prop_oneof![Just(8usize), Just(64usize), Just(256usize), Just(1000usize), Just(4096usize)], prop::collection::vec(0u16..3000, 1..5), prop::collection::vec(1u8..4, 1..3), 0u8..30, 0u8..40)
        .prop_map(|(size, producers, groups, per_dequeue, pause)| Stress { size, producers, groups, per_dequeue, pause })
}

fn run_stress<const N: usize>(c: &Stress) -> Result<(), String> {
    let ring: Box<RingBuffer<Element, N>> = Box::new(RingBuffer::new());
    let consumers: Vec<_> = c.groups.iter().map(|_| ring.consumer()).collect();
    let total: u64 = c.producers.iter().map(|n| *n as u64).sum();
    let started = AtomicU64::new(0);
    let read: Vec<AtomicU64> = c.groups.iter().map(|_| AtomicU64::new(0)).collect();
    // what each consuming thread may be using (see Shared::oldest())
    let in_flight: Vec<Vec<AtomicU64>> = c.groups.iter().map(|t| (0..*t).map(|_| AtomicU64::new(u64::MAX)).collect()).collect();
    let failed = AtomicBool::new(false);
    let wrong = std::sync::Mutex::new(None::<String>);
    let blame = |m: String| { failed.store(true, SeqCst); wrong.lock().unwrap().get_or_insert(m); };
    let received: Vec<Vec<std::sync::Mutex<Vec<(u64, u64)>>>> = c.groups.iter().map(|t| (0..*t).map(|_| std::sync::Mutex::new(vec![])).collect()).collect();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let gate = std::sync::Mutex::new(());
    std::thread::scope(|scope| {
        for (p, n) in c.producers.iter().enumerate() {
            let (ring, started, read, in_flight, failed, blame, gate) = (&ring, &started, &read, &in_flight, &failed, &blame, &gate);
            scope.spawn(move || {
                for seq in 0..*n as u64 {
                    loop {
                        if failed.load(SeqCst) { return; }
                        {
                            let _g = gate.lock().unwrap();
                            // (read counters come before what is in flight: only a later, smaller, value could be missed -- which is covered by the counter)
                            let reads = read.iter().map(|r| r.load(SeqCst)).min().unwrap();
                            let flying = in_flight.iter().flatten().map(|f| f.load(SeqCst)).min().unwrap();
                            if started.load(SeqCst) < reads.min(flying) + N as u64 { started.fetch_add(1, SeqCst); break; }
                        }
                        if std::time::Instant::now() > deadline { blame("producers are waiting for elements that don't arrive".to_string()); return; }
                        std::thread::yield_now();
                    }
                    if let Err(m) = catch(|| ring.enqueue(Element::new(p as u64, seq))) { blame(format!("enqueue panicked: {m}")); return; }
                    if c.pause > 0 && seq % (c.pause as u64 + 1) == 0 { std::thread::yield_now(); }
                }
            });
        }
        for (gi, threads) in c.groups.iter().enumerate() {
            for t in 0..*threads as usize {
                let (consumer, read, in_flight, failed, blame, received, started) = (&consumers[gi], &read[gi], &in_flight[gi][t], &failed, &blame, &received[gi][t], &started);
                _ = started;
                scope.spawn(move || {
                    let mut mine = vec![];
                    while read.load(SeqCst) < total && !failed.load(SeqCst) {
                        // announce, then confirm
                        let mut at = read.load(SeqCst);
                        loop { in_flight.store(at, SeqCst); let now = read.load(SeqCst); if now == at { break; } at = now; }
                        match catch(|| consumer.dequeue().map(|x| x.map(|e| e.check())).map_err(|e| e.to_string())) {
                            Err(m) => blame(format!("dequeue panicked: {m}")),
                            Ok(Err(e)) => blame(format!("a consumer failed, without any overflow: {e}")),
                            Ok(Ok(Some(Err(e)))) => blame(format!("dequeueing gave {e}")),
                            Ok(Ok(Some(Ok(x)))) => {
                                mine.push(x);
                                read.fetch_add(1, SeqCst);
                            },
                            Ok(Ok(None)) => { in_flight.store(u64::MAX, SeqCst); if std::time::Instant::now() > deadline { blame(format!("only {} of {total} elements arrived", read.load(SeqCst))); } std::thread::yield_now(); },
                        }
                        in_flight.store(u64::MAX, SeqCst);
                    }
                    *received.lock().unwrap() = mine;
                });
            }
        }
    });
    if let Some(w) = wrong.lock().unwrap().take() { return Err(w); }
    for (gi, g) in received.iter().enumerate() {
        let mut all: Vec<(u64, u64)> = vec![];
        for t in g {
            let mine = t.lock().unwrap();
            let mut last: HashMap<u64, u64> = HashMap::new();
            for (p, s) in mine.iter() {
                if let Some(l) = last.insert(*p, *s) { ensure_r!(l < *s, "a thread of consumer #{gi} received #{s} of producer {p} after #{l}"); }
            }
            all.extend(mine.iter());
        }
        all.sort();
        let expected: Vec<(u64, u64)> = c.producers.iter().enumerate().flat_map(|(p, n)| (0..*n as u64).map(move |s| (p as u64, s))).collect();
        ensure_r!(all == expected, "consumer #{gi} received {} elements: {} lost or duplicated", all.len(), expected.iter().filter(|e| all.binary_search(e).is_err()).count() + all.windows(2).filter(|w| w[0] == w[1]).count());
    }
    Ok(())
}
fn check_stress(c: &Stress) -> Outcome {
    match with_capacity!(c.size, run_stress, c) {
        Err(e) => fail(e),
        Ok(()) => pass(c.producers.iter().map(|n| *n as usize).sum::<usize>() > c.size, format!("{} producers, {} consuming threads", c.producers.len(), c.groups.iter().sum::<u8>())),
    }
}

/// `overflowing`: whether consumers may be overrun
pub fn schedules_sub(quick: u64, thorough: u64, overflowing: Option<bool>) -> Sub {
    Sub::new("schedules", quick, thorough, case().prop_map(move |mut c| { if let Some(o) = overflowing { c.overflowing = o; } c }), check)
}

pub fn prop() -> Prop {
    Prop { id: "C10", rule: "1-3 producers, 1-2 consumers of 1-3 threads, small buffers at any lap, gated (no overflow) or not, and a generated schedule; nontrivial: more than 2 threads involved, at least 2 elements received and the threads really interleaved. Real threads: more elements than slots",
        assumptions: vec!["atomic accesses are interleaved one at a time (sequentially consistent values, but in weak-memory, where loads may see older ones); visibility is judged by the happens-before relation of the orderings used"],
        subs: vec![schedules_sub(1_200_000, 60_000_000, None), Sub::new("weak-memory", 400_000, 20_000_000, weak_case(), check), Sub::new("threads", 6_000, 300_000, stress(), check_stress)] }
}
