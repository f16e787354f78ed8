//! C08, C09 & C11: the ring buffer, single threaded (see the `conc` crate for C10)

use crate::alloc::with_capacity;
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::mem::MaybeUninit;
use vcommon::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Enqueue { count: u32 }, Consumer, Forget { consumer: u8 }, Dequeue { consumer: u8, count: u8 }, Drain { consumer: u8 }, Peek { consumer: u8 },
    /// stands for that many enqueues (see [Positions])
    Skip { by: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    size: usize,
    /// how many elements had already been enqueued before the first operation
    start: u32,
    ops: Vec<Op>,
}

/// counts of enqueued elements worth being at, or skipping
fn interesting_counts() -> BoxedStrategy<u32> {
    (prop_oneof![4 => Just(1u64 << 31), 4 => Just(1u64 << 32), 2 => Just(1u64 << 16), 1 => Just(1u64 << 15), 1 => Just(1u64 << 8), 1 => Just(1u64 << 24), 1 => Just(1u64 << 30), 1 => Just(1u64 << 31 | 1 << 30), 2 => any::<u32>().prop_map(|x| x as u64)],
     prop_oneof![3 => -10i64..10, 1 => -70i64..70, 1 => -1000i64..1000])
        .prop_map(|(base, d)| (base as i64 + d).clamp(0, MOST as i64) as u32).boxed()
}
/// no more elements than that are skipped to (more may be enqueued, though)
const MOST: u64 = (1 << 32) - 1;

/// whether to be at, or skip to, positions which would take too long to reach
#[derive(Clone, Copy, PartialEq)]
enum Far {
    No,
    Skips,
    /// some really enqueue that many, too
    Yes,
}
fn histories(max: usize, far: Far) -> impl Strategy<Value = History> {
    let size = prop_oneof![Just(1usize), Just(2), Just(3), Just(4), Just(5), Just(7), Just(8), Just(16), Just(64)];
    size.prop_flat_map(move |size| {
        let burst = (size as u8).saturating_mul(2).max(4);
        let n = size as u32;
        let usual = prop_oneof![3 => 1u32..4, 1 => 1u32..burst as u32, 1 => n..=(n + 1)].boxed();
        let enqueues = move |bursts: bool| if bursts { prop_oneof![2 => usual.clone(), 40 => (65536 - n)..=(65536 + n), 20 => (131072 - n)..=(131072 + n), 1 => ((1u32 << 24) - n)..=((1 << 24) + n)].boxed() } else { usual.clone() };
        let ops = move |max: usize, skips: u32, bursts: bool| prop::collection::vec(prop_oneof![
            skips => interesting_counts().prop_map(|by| Op::Skip { by }),
            10 => enqueues(bursts).prop_map(|count| Op::Enqueue { count }),
            3 => Just(Op::Consumer),
            1 => any::<u8>().prop_map(|consumer| Op::Forget { consumer }),
            6 => (any::<u8>(), prop_oneof![3 => 1u8..3, 1 => 1u8..burst]).prop_map(|(consumer, count)| Op::Dequeue { consumer, count }),
            2 => any::<u8>().prop_map(|consumer| Op::Drain { consumer }),
            6 => any::<u8>().prop_map(|consumer| Op::Peek { consumer }),
        ], 1..max).boxed();
        let long = if far == Far::Yes { ops(max / 8, 0, true) } else { ops(max, 0, false) };
        if far != Far::No {
            prop_oneof![
                280 => (Just(0), ops(max, 0, false)), 50 => (interesting_counts(), ops(max, 0, false)), 30 => (Just(0), ops(max / 2, 2, false)), 10 => (interesting_counts(), ops(max / 2, 2, false)),
                1 => (Just(0), long),
            ].prop_map(move |(start, ops)| History { size, start, ops }).boxed()
        } else {
            ops(max, 0, false).prop_map(move |ops| History { size, start: 0, ops }).boxed()
        }
    })
}

/// the value of the n-th element
fn value(n: u64) -> u64 { (n + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) }

struct Consumer<'a, const N: usize> { c: RingBufferConsumer<'a, u64, N>, head: u64, failed: bool }

#[derive(Default)]
struct Seen { consumers: usize, dequeued: u64, peeked: u64, wrapped: bool, skipped: u64, far: bool, huge: bool, at_limit: u64, overflows: u64, after_overflow: u64 }

fn dequeue<const N: usize>(c: &mut Consumer<N>, total: u64, seen: &mut Seen) -> Result<(), String> {
    let lag = total - c.head;
    if lag > N as u64 { c.failed = true; }
    let r = c.c.dequeue();
    if c.failed {
        seen.overflows += 1;
        if let Ok(v) = r { return Err(format!("a consumer that was overrun (position {}, {total} enqueued, size {N}) yielded {v:?} on dequeue", c.head)); }
        return Ok(());
    }
    match r {
        Err(e) => Err(format!("a consumer {lag} elements behind (size {N}) got: {e}")),
        Ok(None) => { ensure_r!(lag == 0, "nothing was dequeued by a consumer {lag} elements behind (size {N})"); Ok(()) },
        Ok(Some(v)) => {
            ensure_r!(lag > 0, "an up to date consumer dequeued {v}");
            ensure_r!(*v == value(c.head), "element #{} expected, got {} (size {N}, {total} enqueued)", c.head, which(*v, total));
            if lag == N as u64 { seen.at_limit += 1; }
            c.head += 1;
            seen.dequeued += 1;
            Ok(())
        },
    }
}
fn which(v: u64, total: u64) -> String {
    (total.saturating_sub(200_000)..total).rev().find(|n| value(*n) == v).map(|n| format!("element #{n}")).unwrap_or_else(|| format!("{v:#x}, which was never enqueued"))
}
fn peek<const N: usize>(c: &mut Consumer<N>, total: u64, seen: &mut Seen) -> Result<(), String> {
    let lag = total - c.head;
    if lag > N as u64 { c.failed = true; }
    let r = c.c.peek_all();
    if c.failed {
        seen.overflows += 1;
        if let Ok(v) = r { return Err(format!("a consumer that was overrun (position {}, {total} enqueued, size {N}) peeked {v:?}", c.head)); }
        return Ok(());
    }
    match r {
        Err(e) => Err(format!("a consumer {lag} elements behind (size {N}) got, on peek: {e}")),
        Ok(chunks) => {
            let all: Vec<u64> = chunks.concat();
            let expected: Vec<u64> = (c.head..total).map(value).collect();
            ensure_r!(all == expected, "peek of elements #{}..#{total} (size {N}) yielded {:?}", c.head, all.iter().map(|v| which(*v, total)).collect::<Vec<_>>());
            if lag == N as u64 { seen.at_limit += 1; }
            if lag > 0 { seen.peeked += 1; }
            Ok(())
        },
    }
}

/// Where a ring buffer keeps the counts of enqueued elements: the pair of 32 bit words (but those of the slots) which are incremented by each enqueue.
/// Adding to them stands for that many enqueues. Nothing is skipped for ring buffers which aren't made like this.
struct Positions { base: *mut u32, at: [usize; 2] }
const FILLER: u64 = 0x7777_7777_7777_7777;
trait Slot: Copy + 'static { const FILLER: Self; }
impl Slot for u64 { const FILLER: u64 = FILLER; }
impl Slot for [u64; 4] { const FILLER: [u64; 4] = [FILLER; 4]; }
type Storage<T, const N: usize> = Box<MaybeUninit<RingBuffer<T, N>>>;
impl Positions {
    /// a buffer (whose padding is zeroed) with all slots in use
    fn fresh<T: Slot, const N: usize>() -> (Storage<T, N>, &'static RingBuffer<T, N>) {
        let mut storage: Storage<T, N> = Box::new(MaybeUninit::zeroed());
        storage.write(RingBuffer::new());
        let ring: &'static RingBuffer<T, N> = unsafe { &*storage.as_ptr() };
        for _ in 0..N + 1 { ring.enqueue(T::FILLER); }
        (storage, ring)
    }
    fn words<T: Slot, const N: usize>(storage: &Storage<T, N>) -> Vec<u32> {
        let base = storage.as_ptr() as *const u32;
        (0..std::mem::size_of::<RingBuffer<T, N>>() / 4).map(|i| unsafe { base.add(i).read_volatile() }).collect()
    }
    fn at<T: Slot, const N: usize>(storage: &Storage<T, N>) -> Option<[usize; 2]> {
        let ring = unsafe { &*storage.as_ptr() };
        let mut before = Self::words(storage);
        let mut counting = vec![true; before.len()];
        for _ in 0..3 * N + 5 {
            ring.enqueue(T::FILLER);
            let after = Self::words(storage);
            for i in 0..after.len() { if after[i] != before[i].wrapping_add(1) { counting[i] = false; } }
            before = after;
        }
        let at: Vec<usize> = (0..before.len()).filter(|i| counting[*i]).collect();
        if at.len() == 2 && before[at[0]] == before[at[1]] && before[at[0]] < 5 * N as u32 + 8 { Some([at[0], at[1]]) } else { None }
    }
    /// of a buffer whose slots have the size and alignment of `T`
    fn find<T: Slot, E, const N: usize>(ring: &RingBuffer<E, N>) -> Option<Positions> {
        static AT: std::sync::Mutex<Option<std::collections::HashMap<(usize, usize), Option<[usize; 2]>>>> = std::sync::Mutex::new(None);
        let at = *AT.lock().unwrap().get_or_insert_default().entry((N, std::mem::size_of::<T>())).or_insert_with(|| {
            let made = Self::at(&Self::fresh::<T, N>().0)?;
            // adding to them must have the effects of enqueues on whatever else the buffer keeps
            let changes = |by: u32, added: bool| -> Vec<u32> {
                let (storage, ring) = Self::fresh::<T, N>();
                let before = Self::words(&storage);
                if added {
                    if !(Positions { base: &*storage as *const _ as *mut u32, at: made }).skip(by) { return vec![]; }
                } else {
                    for _ in 0..by { ring.enqueue(T::FILLER); }
                }
                Self::words(&storage).iter().zip(before).map(|(a, b)| a.wrapping_sub(b)).collect()
            };
            [1, N as u32, 3 * N as u32 + 1, 5003].iter().all(|by| changes(*by, true) == changes(*by, false)).then_some(made)
        });
        at.map(|at| Positions { base: ring as *const _ as *mut u32, at })
    }
    /// whether both counters are at a given count
    fn are_at(&self, count: u64) -> bool { self.at.iter().all(|i| unsafe { self.base.add(*i).read_volatile() } as u64 == count) }
    fn skip(&self, by: u32) -> bool {
        unsafe {
            let values = self.at.map(|i| self.base.add(i).read_volatile() as u64 + by as u64);
            if values.iter().any(|v| *v > MOST) { return false; }
            for (i, v) in self.at.iter().zip(values) { self.base.add(*i).write_volatile(v as u32); }
        }
        true
    }
}

fn run_with_overflow<const N: usize>(h: &History) -> Result<Seen, String> { run::<N>(h, true) }
fn run_without_overflow<const N: usize>(h: &History) -> Result<Seen, String> { run::<N>(h, false) }

fn run<const N: usize>(h: &History, overflow: bool) -> Result<Seen, String> {
    let ring: Box<RingBuffer<u64, N>> = Box::new(RingBuffer::new());
    let mut consumers: Vec<Consumer<N>> = vec![];
    let mut total = 0u64;
    let mut seen = Seen::default();
    let positions = if h.start > 0 || h.ops.iter().any(|op| matches!(op, Op::Skip { .. })) { Positions::find::<u64, u64, N>(&ring) } else { None };
    // (as many elements as needed for all slots to be used, so a lap was made)
    let skip = |total: &mut u64, by: u32, seen: &mut Seen| {
        let Some(p) = &positions else { return };
        if *total + by as u64 > MOST { return; }
        while *total < N as u64 { ring.enqueue(value(*total)); *total += 1; }
        if p.skip(by) { *total += by as u64; seen.skipped += 1; }
    };
    if h.start > 0 { skip(&mut total, h.start, &mut seen); }
    for op in &h.ops {
        let pick = |i: u8, len: usize| i as usize % len;
        match op {
            Op::Skip { by } => {
                // (whoever isn't left behind isn't affected by what is skipped)
                if !overflow { continue; }
                let before = total;
                skip(&mut total, *by, &mut seen);
                if total > before {
                    // those who aren't overrun don't get to see what was skipped
                    for c in &mut consumers { if total - c.head > N as u64 { c.failed = true; } }
                    consumers.retain(|c| c.failed);
                }
            },
            Op::Enqueue { count } => for _ in 0..*count {
                if !overflow {
                    for c in &mut consumers { if total - c.head == N as u64 { dequeue(c, total, &mut seen)?; } }
                }
                ring.enqueue(value(total));
                total += 1;
                for c in &mut consumers { if total - c.head > N as u64 { c.failed = true; } }
            },
            Op::Consumer => if consumers.len() < 12 {
                consumers.push(Consumer { c: ring.consumer(), head: total, failed: false });
                seen.consumers = seen.consumers.max(consumers.len());
            },
            _ if consumers.is_empty() => (),
            Op::Forget { consumer } => { let i = pick(*consumer, consumers.len()); consumers.remove(i); },
            Op::Dequeue { consumer, count } => {
                let i = pick(*consumer, consumers.len());
                for _ in 0..*count {
                    if consumers[i].failed { seen.after_overflow += 1; }
                    dequeue(&mut consumers[i], total, &mut seen)?;
                }
            },
            Op::Drain { consumer } => {
                let i = pick(*consumer, consumers.len());
                let c = &mut consumers[i];
                loop { dequeue(c, total, &mut seen)?; if c.failed || c.head == total { break; } }
                dequeue(c, total, &mut seen)?;
            },
            Op::Peek { consumer } => {
                let i = pick(*consumer, consumers.len());
                let c = &mut consumers[i];
                peek(c, total, &mut seen)?;
                if c.head % 3 == 0 { peek(c, total, &mut seen)?; }
            },
        }
    }
    for c in &mut consumers {
        peek(c, total, &mut seen)?;
        dequeue(c, total, &mut seen)?;
        peek(c, total, &mut seen)?;
    }
    seen.wrapped = total > N as u64;
    seen.far = total > 1 << 15;
    seen.huge = total > 1 << 32;
    Ok(seen)
}

fn check_delivery(h: &History) -> Outcome {
    match with_capacity!(h.size, run_without_overflow, h) {
        Err(e) => fail(e),
        Ok(s) => {
            let mut classes = vec![format!("size {}", h.size)];
            if s.consumers > 1 { classes.push("several consumers".to_string()); }
            if s.wrapped { classes.push("beyond the first lap".to_string()); }
            if s.at_limit > 0 { classes.push("exactly one buffer behind".to_string()); }
            if s.far { classes.push("beyond 2^15 elements".to_string()); }
            if s.huge { classes.push("beyond 2^32 elements".to_string()); }
            pass_multi(s.wrapped && s.dequeued + s.peeked > 1, classes)
        },
    }
}
fn check_overflow(h: &History) -> Outcome {
    match with_capacity!(h.size, run_with_overflow, h) {
        Err(e) => fail(e),
        Ok(s) => {
            let mut classes = vec![format!("size {}", h.size)];
            if s.overflows > 0 { classes.push("overflow seen".to_string()); }
            if s.after_overflow > 1 { classes.push("dequeues after an overflow".to_string()); }
            if s.at_limit > 0 { classes.push("exactly one buffer behind".to_string()); }
            if s.far { classes.push("beyond 2^15 elements".to_string()); }
            if s.huge { classes.push("beyond 2^32 elements".to_string()); }
            pass_multi(s.overflows > 1, classes)
        },
    }
}

// C11
//////

const MAGIC: u64 = 0x00C0_FFEE_F00D_0001;
const DECOY: u64 = u64::MAX;
struct Ledger { drops: Vec<u32>, wrong: Vec<String> }
thread_local! { static LEDGER: RefCell<Ledger> = const { RefCell::new(Ledger { drops: Vec::new(), wrong: Vec::new() }) }; }

/// an element which owns heap memory, tells who it is, and survives being dropped when it shouldn't
#[repr(C)]
struct Tracked { magic: u64, id: u64, sum: u64, heap: *mut u64 }
impl Tracked {
    fn new(id: u64) -> Self { Tracked { magic: MAGIC, id, sum: MAGIC ^ id.wrapping_mul(3), heap: Box::into_raw(Box::new(value(id))) } }
    fn is_sane(&self) -> bool { self.magic == MAGIC && self.sum == MAGIC ^ self.id.wrapping_mul(3) }
    fn check(&self) -> Result<u64, String> {
        ensure_r!(self.is_sane() && self.id != DECOY, "something that was never enqueued is readable in the ring: {:#x} {:#x}", self.magic, self.id);
        let dropped = LEDGER.with_borrow(|l| l.drops[self.id as usize]);
        ensure_r!(dropped == 0, "element #{} is readable, but it was already dropped", self.id);
        ensure_r!(unsafe { *self.heap } == value(self.id), "the heap memory of element #{} is corrupted", self.id);
        Ok(self.id)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        LEDGER.with_borrow_mut(|l| {
            if !self.is_sane() || self.id == DECOY { l.wrong.push(format!("something that was never enqueued was dropped: {:#x} {:#x}", self.magic, self.id)); }
            else {
                l.drops[self.id as usize] += 1;
                if l.drops[self.id as usize] > 1 { l.wrong.push(format!("element #{} was dropped twice", self.id)); }
                else { unsafe { drop(Box::from_raw(self.heap)) } }
            }
        })
    }
}

fn run_ownership<const N: usize>(h: &History) -> Result<Seen, String> {
    LEDGER.with_borrow_mut(|l| { l.drops.clear(); l.wrong.clear(); });
    // storage full of things that look like elements, but never were enqueued
    let mut storage: Box<[MaybeUninit<RingBuffer<Tracked, N>>; 1]> = Box::new([MaybeUninit::uninit()]);
    let slots = std::mem::size_of::<RingBuffer<Tracked, N>>() / 8;
    let base = storage.as_mut_ptr() as *mut u64;
    let decoy = [MAGIC, DECOY, MAGIC ^ DECOY.wrapping_mul(3), 0x5A5A_5A5A_5A5A_5A5A];
    // (the slots come either before or after the counters, which take 8 bytes)
    let skew = if h.ops.len() % 2 == 0 { 0 } else { 1 };
    for i in 0..slots { unsafe { base.add(i).write_volatile(decoy[(i + skew) % 4]); } }
    storage[0].write(RingBuffer::new());
    let ring: &RingBuffer<Tracked, N> = unsafe { storage[0].assume_init_ref() };

    let positions = if h.start > 0 || h.ops.iter().any(|op| matches!(op, Op::Skip { .. })) { Positions::find::<[u64; 4], Tracked, N>(ring) } else { None };
    let mut consumers: Vec<(RingBufferConsumer<Tracked, N>, u64, bool)> = vec![];
    let (mut total, mut skipped) = (0u64, 0u64);
    let mut seen = Seen::default();
    let ledger_ok = |total: u64, when: &str| -> Result<(), String> {
        LEDGER.with_borrow(|l| {
            if let Some(w) = l.wrong.first() { return Err(format!("{when}: {w} (size {N}, {total} enqueued)")); }
            let gone = total.saturating_sub(N as u64);
            for (id, drops) in l.drops.iter().enumerate() {
                let expected = if (id as u64) < gone { 1 } else { 0 };
                ensure_r!(*drops == expected, "{when}: element #{id} was dropped {drops} times instead of {expected} (size {N}, {total} enqueued)");
            }
            Ok(())
        })
    };
    let mut result = Ok(());
    let start = (h.start > 0).then_some(Op::Skip { by: h.start });
    'ops: for op in start.iter().chain(&h.ops) {
        let mut step = || -> Result<(), String> {
            match op {
                Op::Enqueue { count } => for _ in 0..*count {
                    LEDGER.with_borrow_mut(|l| l.drops.push(0));
                    ring.enqueue(Tracked::new(total));
                    total += 1;
                    for c in &mut consumers { if total - c.1 > N as u64 { c.2 = true; } }
                    ledger_ok(total, "after enqueueing")?;
                },
                Op::Skip { by } => {
                    // (whole laps: as if each slot was overwritten by an element just like the one already there)
                    let by = by - by % N as u32;
                    let Some(p) = &positions else { return Ok(()) };
                    if total + skipped + by as u64 > MOST { return Ok(()); }
                    while total < N as u64 {
                        LEDGER.with_borrow_mut(|l| l.drops.push(0));
                        ring.enqueue(Tracked::new(total));
                        total += 1;
                    }
                    if !p.are_at(total + skipped) || !p.skip(by) { return Ok(()); }
                    skipped += by as u64;
                    consumers.clear();
                    seen.skipped += 1;
                },
                Op::Consumer => if consumers.len() < 6 { consumers.push((ring.consumer(), total, false)); seen.consumers += 1; },
                _ if consumers.is_empty() => (),
                Op::Forget { consumer } => { let i = *consumer as usize % consumers.len(); consumers.remove(i); },
                Op::Dequeue { consumer, .. } | Op::Drain { consumer } => {
                    let count = match op { Op::Dequeue { count, .. } => *count as u64, _ => N as u64 };
                    let i = *consumer as usize % consumers.len();
                    let c = &mut consumers[i];
                    for _ in 0..count {
                        let r = c.0.dequeue();
                        if c.2 { break; }
                        match r { Ok(Some(e)) => { ensure_r!(e.check()? == c.1, "out of order element"); c.1 += 1; seen.dequeued += 1; }, _ => break }
                    }
                },
                Op::Peek { consumer } => {
                    let i = *consumer as usize % consumers.len();
                    let c = &consumers[i];
                    if let (Ok(chunks), false) = (c.0.peek_all(), c.2) {
                        for (n, e) in chunks.iter().flat_map(|c| c.iter()).enumerate() { ensure_r!(e.check()? == c.1 + n as u64, "out of order element"); }
                        seen.peeked += 1;
                    }
                },
            }
            ledger_ok(total, "after consuming or peeking")
        };
        result = step();
        if result.is_err() { break 'ops; }
    }
    drop(consumers);
    seen.wrapped = total > N as u64;
    seen.huge = total + skipped > 1 << 32;
    if result.is_ok() {
        // ending the ring may or may not drop the last elements -- but never others, nor twice
        unsafe { std::ptr::drop_in_place(storage[0].as_mut_ptr()); }
        result = LEDGER.with_borrow(|l| match l.wrong.first() { Some(w) => Err(format!("at the end of the ring: {w}")), None => Ok(()) });
    }
    result.map(|_| seen)
}
fn check_ownership(h: &History) -> Outcome {
    match with_capacity!(h.size, run_ownership, h) {
        Err(e) => fail(e),
        Ok(s) => {
            let mut classes = vec![format!("size {}", h.size)];
            if s.wrapped { classes.push("beyond the first lap".to_string()); }
            if s.dequeued + s.peeked > 0 { classes.push("read back".to_string()); }
            if s.huge { classes.push("beyond 2^32 elements".to_string()); }
            pass_multi(s.wrapped && s.dequeued + s.peeked > 0, classes)
        },
    }
}

pub fn props() -> Vec<Prop> { vec![
    Prop { id: "C08", rule: "histories of 1..100 operations (enqueue bursts, consumer creation and removal, dequeue, drain, peek) over buffers of 1..64 slots, from any number of elements on (up to, and across, 2^32), consumers being kept at most one buffer behind; nontrivial: beyond the first lap, with at least two elements read",
        assumptions: vec!["large numbers of enqueues are stood for by adding to the counters found in the buffer, as each enqueue does"],
        subs: vec![Sub::new("delivery", 600_000, 30_000_000, histories(100, Far::Yes), check_delivery)] },
    Prop { id: "C09", rule: "histories of 1..100 operations over buffers of 1..64 slots, from any number of elements on (up to, and across, 2^32), without keeping consumers up to date (and up to 2^32 behind); nontrivial: at least two operations on overrun consumers",
        assumptions: vec!["large numbers of enqueues are stood for by adding to the counters found in the buffer, as each enqueue does"],
        subs: vec![Sub::new("overflow", 600_000, 30_000_000, histories(100, Far::Yes), check_overflow)] },
    Prop { id: "C11", rule: "histories of 1..100 operations with elements owning heap memory over storage pre-filled with decoys; nontrivial: beyond the first lap, with at least one element read back",
        assumptions: vec!["what happens to the last elements when the ring itself ends is left open"],
        subs: vec![Sub::new("ownership", 400_000, 20_000_000, prop_oneof![3 => histories(100, Far::No), 1 => histories(100, Far::Skips)], check_ownership)] },
] }
