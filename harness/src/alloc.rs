//! C04, C05 & C06: the metering allocator

use big_o_test::ALLOC;
use big_o_test::metrics_allocator::{MetricsAllocator, MetricsAllocatorSavePoint, MetricsAllocatorStatistics};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::hint::black_box;
use vcommon::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Alloc { size: u64, align: u8, zeroed: bool },
    Realloc { block: u16, size: u64 },
    Free { block: u16 },
    Save,
    /// several save points in a row, kept or not
    SaveMany { count: u16, keep: bool },
    Read { window: u16 },
    ReadAll,
    Forget { window: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History { capacity: usize, ops: Vec<Op> }

/// calls the generic `$f::<N>($arg)` for the run-time `$n`
macro_rules! with_capacity {
    ($n: expr, $f: ident, $arg: expr) => { match $n {
        1 => $f::<1>($arg), 2 => $f::<2>($arg), 3 => $f::<3>($arg), 4 => $f::<4>($arg), 5 => $f::<5>($arg), 7 => $f::<7>($arg),
        8 => $f::<8>($arg), 16 => $f::<16>($arg), 64 => $f::<64>($arg), 1024 => $f::<1024>($arg), n => panic!("no instance for {n}") } }
}
pub(crate) use with_capacity;

const GIB: u64 = 1 << 30;
/// requests from here on are refused by any system
const ABSURD: u64 = 1 << 62;

fn sizes(huge: bool) -> BoxedStrategy<u64> {
    let small = prop_oneof![6 => 1u64..64, 4 => 1u64..5000, 2 => (0u32..20).prop_map(|b| 1u64 << b), 1 => 1u64..(1 << 20)];
    if huge { prop_oneof![12 => small, 2 => (4 * GIB - 100)..(9 * GIB), 1 => (GIB / 2)..(4 * GIB), 2 => ABSURD..((1u64 << 63) - (1 << 20))].boxed() } else { small.boxed() }
}
fn aligns() -> impl Strategy<Value = u8> { prop_oneof![6 => 0u8..5, 3 => 0u8..13, 1 => Just(12u8), 1 => Just(16u8)] }

fn ops(huge: bool, windows: bool, max: usize) -> impl Strategy<Value = Vec<Op>> {
    let w = if windows { 6 } else { 1 };
    prop::collection::vec(prop_oneof![
        12 => (sizes(huge), aligns(), any::<bool>()).prop_map(|(size, align, zeroed)| Op::Alloc { size, align, zeroed }),
        8 => (any::<u16>(), sizes(huge)).prop_map(|(block, size)| Op::Realloc { block, size }),
        10 => any::<u16>().prop_map(|block| Op::Free { block }),
        2 * w => Just(Op::Save),
        w => (1u16..24, any::<bool>()).prop_map(|(count, keep)| Op::SaveMany { count, keep }),
        3 * w => any::<u16>().prop_map(|window| Op::Read { window }),
        1 => Just(Op::ReadAll),
        1 => any::<u16>().prop_map(|window| Op::Forget { window }),
    ], 1..max)
}

#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Counters { allocs: usize, deallocs: usize, zeroed: usize, reallocs: usize, allocated: usize, deallocated: usize, zeroed_bytes: usize, originals: usize, news: usize }
impl Counters {
    fn minus(&self, o: &Counters) -> Counters {
        Counters { allocs: self.allocs - o.allocs, deallocs: self.deallocs - o.deallocs, zeroed: self.zeroed - o.zeroed, reallocs: self.reallocs - o.reallocs,
            allocated: self.allocated - o.allocated, deallocated: self.deallocated - o.deallocated, zeroed_bytes: self.zeroed_bytes - o.zeroed_bytes,
            originals: self.originals - o.originals, news: self.news - o.news }
    }
    fn of(s: &MetricsAllocatorStatistics<usize>) -> Counters {
        Counters { allocs: s.allocations_count, deallocs: s.deallocations_count, zeroed: s.zeroed_allocations_count, reallocs: s.reallocations_count,
            allocated: s.allocated_bytes, deallocated: s.deallocated_bytes, zeroed_bytes: s.zeroed_allocated_bytes, originals: s.reallocated_originals_bytes, news: s.reallocated_news_bytes }
    }
}
struct Window<'a, const N: usize> { save_point: MetricsAllocatorSavePoint<'a, N>, at: Counters, low: usize, high: usize, later: usize, reads: u32 }

/// frees whatever the case left behind
struct Blocks<'a, const N: usize> { allocator: &'a MetricsAllocator<'static, N>, live: Vec<(*mut u8, Layout)> }
impl<const N: usize> Drop for Blocks<'_, N> { fn drop(&mut self) { for (p, l) in self.live.drain(..) { unsafe { self.allocator.dealloc(p, l) } } } }

#[derive(Default)]
struct Seen { refused: u32, huge: u32, reallocs: u32, nested_reads: u32, overflowed: u32, wrapped: bool, repeated: u32, reads: u32 }

fn run_history<const N: usize>(h: &History) -> Result<Seen, String> { run_history_on::<N>(&Box::new(MetricsAllocator::new()), h, false) }
/// does nothing else with the heap, as the allocator may be the global one -- in which case, no windows are overflowed
fn run_history_on<const N: usize>(allocator: &MetricsAllocator<'static, N>, h: &History, global: bool) -> Result<Seen, String> {
    let mut blocks = Blocks { allocator, live: Vec::with_capacity(200) };
    let mut windows: Vec<Window<N>> = Vec::with_capacity(200);
    let (mut now, base) = if !global { Default::default() } else { let start = allocator.save_point(); (Counters::of(&start.metrics), start.metrics.current_used_memory) };
    let mut level = base;
    let mut saves = 0usize;
    let mut seen = Seen::default();

    fn read<const N: usize>(allocator: &MetricsAllocator<'static, N>, w: &mut Window<N>, now: &Counters, level: usize, seen: &mut Seen) -> Result<(), String> {
        seen.reads += 1;
        if w.reads > 0 { seen.repeated += 1; }
        if w.later > 0 { seen.nested_reads += 1; }
        w.reads += 1;
        match allocator.delta_statistics(&w.save_point) {
            Ok(s) => {
                ensure_r!(w.later <= N, "a window with {} later save points (capacity: {N}) was read, instead of failing: {s}", w.later);
                let expected = now.minus(&w.at);
                ensure_r!(Counters::of(&s) == expected, "wrong counts: expected {expected:?}; got {s}");
                ensure_r!(s.current_used_memory == level, "wrong heap level: expected {level}; got {s}");
                ensure_r!(s.min_used_memory == w.low && s.max_used_memory == w.high, "wrong low & high heap levels: expected {}..{} (level: {level}; {} later save points, capacity: {N}); got {s}", w.low, w.high, w.later);
            },
            Err(e) => {
                ensure_r!(w.later > N, "a window with {} later save points (capacity: {N}) couldn't be read: {e}", w.later);
                seen.overflowed += 1;
            },
        }
        Ok(())
    }

    for op in &h.ops {
        let mut delta_level = None;
        match op {
            Op::Alloc { size, align, zeroed } => {
                let (mut align, size) = (1usize << align, *size as usize);
                // zeroed & over aligned blocks are touched by the system allocator
                if size > 1 << 20 { align = align.min(16); }
                let Ok(layout) = Layout::from_size_align(size, align) else { continue };
                if size < ABSURD as usize && level + size > 48 << 30 { continue }
                let ptr = black_box(unsafe { if *zeroed { allocator.alloc_zeroed(layout) } else { allocator.alloc(layout) } });
                if ptr.is_null() { seen.refused += 1; }
                else {
                    blocks.live.push((ptr, layout));
                    if *zeroed { now.zeroed += 1; now.zeroed_bytes += size; } else { now.allocs += 1; now.allocated += size; }
                    delta_level = Some(level + size);
                    if size as u64 >= 4 * GIB { seen.huge += 1; }
                }
            },
            Op::Realloc { block, size } => if !blocks.live.is_empty() {
                let i = *block as usize % blocks.live.len();
                let (ptr, layout) = blocks.live[i];
                let mut size = *size as usize;
                if layout.align() > 16 && size > 1 << 20 { size = if size >= ABSURD as usize { size } else { size % (1 << 20) + 1 }; }
                let Ok(new_layout) = Layout::from_size_align(size, layout.align()) else { continue };
                if size < ABSURD as usize && level + size > 48 << 30 { continue }
                let new_ptr = black_box(unsafe { allocator.realloc(ptr, layout, size) });
                if new_ptr.is_null() { seen.refused += 1; }
                else {
                    blocks.live[i] = (new_ptr, new_layout);
                    now.reallocs += 1; now.originals += layout.size(); now.news += size;
                    seen.reallocs += 1;
                    delta_level = Some(level - layout.size() + size);
                    if size as u64 >= 4 * GIB { seen.huge += 1; }
                }
            },
            Op::Free { block } => if !blocks.live.is_empty() {
                let i = *block as usize % blocks.live.len();
                let (ptr, layout) = blocks.live.swap_remove(i);
                unsafe { allocator.dealloc(black_box(ptr), layout); }
                now.deallocs += 1; now.deallocated += layout.size();
                delta_level = Some(level - layout.size());
            },
            Op::Save | Op::SaveMany { .. } => {
                let (count, keep) = if global && saves > 900 { (0, false) } else if let Op::SaveMany { count, keep } = op { (*count as usize * if global { 1 } else { (N / 8).max(1) }, *keep) } else { (1, true) };
                for n in 0..count {
                    let save_point = allocator.save_point();
                    saves += 1;
                    ensure_r!(Counters::of(&save_point.metrics) == now, "wrong totals in the save point: expected {now:?}; got {}", save_point.metrics);
                    ensure_r!(save_point.metrics.current_used_memory == level, "wrong heap level in the save point: expected {level}; got {}", save_point.metrics);
                    for w in &mut windows { w.later += 1; }
                    if keep && n < 40 || n == count - 1 { windows.push(Window { save_point, at: now, low: level, high: level, later: 0, reads: 0 }); }
                }
                if windows.len() > 150 { windows.drain(0..50); }
            },
            Op::Read { window } => if !windows.is_empty() {
                let i = *window as usize % windows.len();
                read(allocator, &mut windows[i], &now, level, &mut seen)?;
            },
            Op::ReadAll => for w in windows.iter_mut().rev() { read(allocator, w, &now, level, &mut seen)?; },
            Op::Forget { window } => if !windows.is_empty() { let i = *window as usize % windows.len(); windows.remove(i); },
        }
        if let Some(new_level) = delta_level {
            level = new_level;
            for w in &mut windows { w.low = w.low.min(level); w.high = w.high.max(level); }
        }
    }
    for w in &mut windows { read(allocator, w, &now, level, &mut seen)?; }
    for w in windows.iter_mut().rev() { read(allocator, w, &now, level, &mut seen)?; }
    let last = allocator.save_point();
    ensure_r!(Counters::of(&last.metrics) == now && last.metrics.current_used_memory == level, "wrong totals at the end: expected {now:?}, level {level}; got {}", last.metrics);
    let live: usize = blocks.live.iter().map(|b| b.1.size()).sum();
    assert_eq!(base + live, level);
    seen.wrapped = saves > N;
    drop(windows);
    Ok(seen)
}

/// on the allocator of the process
fn run_global(h: &History) -> Result<Seen, String> { run_history_on(&ALLOC, h, true) }

fn check_counts(h: &History) -> Outcome {
    match if h.capacity == 0 { run_global(h) } else { with_capacity!(h.capacity, run_history, h) } {
        Err(e) => fail(e),
        Ok(s) => {
            let mut classes = vec![];
            if s.refused > 0 { classes.push("with refusals".to_string()); }
            if s.huge > 0 { classes.push("with blocks beyond 4GiB".to_string()); }
            if s.reallocs > 0 { classes.push("with reallocations".to_string()); }
            pass_multi(s.reads > 0 && (s.reallocs > 0 || s.refused > 0), classes)
        },
    }
}
fn check_windows(h: &History) -> Outcome {
    match if h.capacity == 0 { run_global(h) } else { with_capacity!(h.capacity, run_history, h) } {
        Err(e) => fail(e),
        Ok(s) => {
            let mut classes = vec![];
            if s.nested_reads > 0 { classes.push("windows with later save points".to_string()); }
            if s.overflowed > 0 { classes.push("windows beyond capacity".to_string()); }
            if s.wrapped { classes.push("more save points than slots".to_string()); }
            if s.repeated > 0 { classes.push("repeated reads".to_string()); }
            classes.push(if h.capacity == 0 { "the global allocator".to_string() } else { format!("capacity {}", h.capacity) });
            pass_multi(s.nested_reads > 1, classes)
        },
    }
}

// C06
//////

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BlockOp { Alloc { size: u64, align: u8, zeroed: bool }, Realloc { block: u16, size: u64 }, Free { block: u16 }, Verify { block: u16 } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockHistory { global: bool, ops: Vec<BlockOp> }

fn block_history() -> impl Strategy<Value = BlockHistory> {
    let size = || prop_oneof![30 => 1u64..200, 15 => 1u64..9000, 4 => 1u64..200_000, 1 => (1u64 << 20)..(4 << 20), 1 => (40u64 << 20)..(42 << 20), 2 => (17.0f64..25.5).prop_map(|e| e.exp2() as u64), 2 => ABSURD..((1u64 << 63) - (1 << 20))];
    (any::<bool>(), prop::collection::vec(prop_oneof![
        8 => (size(), prop_oneof![5 => 0u8..5, 3 => 0u8..13, 1 => Just(16u8)], any::<bool>()).prop_map(|(size, align, zeroed)| BlockOp::Alloc { size, align, zeroed }),
        6 => (any::<u16>(), size()).prop_map(|(block, size)| BlockOp::Realloc { block, size }),
        6 => any::<u16>().prop_map(|block| BlockOp::Free { block }),
        1 => any::<u16>().prop_map(|block| BlockOp::Verify { block }),
    ], 1..120)).prop_map(|(global, ops)| BlockHistory { global, ops })
}

struct Block { ptr: *mut u8, layout: Layout, seed: u8 }
impl Block {
    fn expected(seed: u8, i: usize) -> u8 { (i as u8).wrapping_mul(31) ^ ((i >> 8) as u8).wrapping_mul(7) ^ seed | 1 }
    /// bigger blocks have only some of their contents checked (so they don't get fully touched)
    fn offsets(size: usize) -> Box<dyn Iterator<Item = usize>> {
        if size <= 1 << 16 { Box::new(0..size) } else { Box::new((0..4096).chain((4096..size - 4096).step_by(65521)).chain(size - 4096..size)) }
    }
    fn fill(&self, from: usize) { for i in Self::offsets(self.layout.size()).filter(|i| *i >= from) { unsafe { self.ptr.add(i).write_volatile(Self::expected(self.seed, i)) } } }
    fn verify(&self, upto: usize, original_size: usize) -> Result<(), String> {
        for i in Self::offsets(original_size).filter(|i| *i < upto) {
            let b = unsafe { self.ptr.add(i).read_volatile() };
            ensure_r!(b == Self::expected(self.seed, i), "byte {i} of a live block ({:?}) changed from {:#x} to {b:#x}", self.layout, Self::expected(self.seed, i));
        }
        Ok(())
    }
    fn soil(&self) { for i in Self::offsets(self.layout.size()) { unsafe { self.ptr.add(i).write_volatile(0xA5) } } }
}

trait Alloc { unsafe fn a(&self, l: Layout, zeroed: bool) -> *mut u8; unsafe fn r(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8; unsafe fn d(&self, p: *mut u8, l: Layout); }
impl<T: GlobalAlloc> Alloc for T {
    unsafe fn a(&self, l: Layout, zeroed: bool) -> *mut u8 { if zeroed { self.alloc_zeroed(l) } else { self.alloc(l) } }
    unsafe fn r(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { self.realloc(p, l, n) }
    unsafe fn d(&self, p: *mut u8, l: Layout) { self.dealloc(p, l) }
}
/// the allocator installed by the crate
struct Installed;
unsafe impl GlobalAlloc for Installed {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { std::alloc::alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { std::alloc::alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { std::alloc::dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { std::alloc::realloc(p, l, n) }
}

fn check_blocks(h: &BlockHistory) -> Outcome {
    let private = Box::new(MetricsAllocator::<8>::new());
    let mapped_before = unsafe { libc::mallinfo2() }.hblks;
    let result = if h.global { run_blocks(&Installed, h) } else { run_blocks(&*private, h) };
    match result {
        Err(e) => fail(format!("{} allocator: {e}", if h.global { "the installed" } else { "a private" })),
        Ok((moved, recycled_zeroed, refused)) => {
            let mapped_after = unsafe { libc::mallinfo2() }.hblks;
            ensure!(mapped_after <= mapped_before, "{} blocks remain mapped after everything was freed", mapped_after - mapped_before);
            let mut classes = vec![];
            if moved > 0 { classes.push("reallocations".to_string()) }
            if recycled_zeroed > 0 { classes.push("zeroed memory after dirty frees".to_string()) }
            if refused > 0 { classes.push("refusals".to_string()) }
            pass_multi(moved + recycled_zeroed + refused > 0, classes)
        },
    }
}
fn run_blocks(allocator: &dyn Alloc, h: &BlockHistory) -> Result<(u32, u32, u32), String> {
    let mut live: Vec<Block> = Vec::with_capacity(256);
    let mut spans: BTreeMap<usize, usize> = BTreeMap::new();
    let (mut reallocs, mut recycled, mut refused, mut frees) = (0, 0, 0, 0);
    let mut seed = 0u8;
    let place = |spans: &mut BTreeMap<usize, usize>, ptr: *mut u8, l: &Layout| -> Result<(), String> {
        let (start, end) = (ptr as usize, ptr as usize + l.size());
        ensure_r!(start % l.align() == 0, "misaligned block: {ptr:?} for {l:?}");
        if let Some((s, e)) = spans.range(..end).next_back() { ensure_r!(*e <= start, "overlapping blocks: {start:#x}..{end:#x} and {s:#x}..{e:#x}"); }
        spans.insert(start, end);
        Ok(())
    };
    let mut steps = || -> Result<(), String> {
        for op in &h.ops {
            match op {
                BlockOp::Alloc { size, align, zeroed } => {
                    let size = *size as usize;
                    let align = if size > 1 << 20 { (1usize << align).min(16) } else { 1 << align };
                    let Ok(layout) = Layout::from_size_align(size, align) else { continue };
                    let ptr = black_box(unsafe { allocator.a(layout, *zeroed) });
                    if ptr.is_null() {
                        ensure_r!(size as u64 >= ABSURD, "a request the system grants was refused: {layout:?}");
                        refused += 1;
                        continue;
                    }
                    ensure_r!((size as u64) < ABSURD, "a request the system refuses was granted: {layout:?}");
                    place(&mut spans, ptr, &layout)?;
                    seed = seed.wrapping_add(37);
                    let b = Block { ptr, layout, seed };
                    if *zeroed {
                        if frees > 0 { recycled += 1; }
                        for i in Block::offsets(size) { ensure_r!(unsafe { ptr.add(i).read_volatile() } == 0, "byte {i} of a zeroed allocation is not zero: {layout:?}"); }
                    }
                    b.fill(0);
                    live.push(b);
                },
                BlockOp::Realloc { block, size } => if !live.is_empty() {
                    let i = *block as usize % live.len();
                    let size = *size as usize;
                    let old = live[i].layout;
                    let Ok(new) = Layout::from_size_align(size, old.align()) else { continue };
                    let ptr = black_box(unsafe { allocator.r(live[i].ptr, old, size) });
                    if ptr.is_null() {
                        ensure_r!(size as u64 >= ABSURD, "a reallocation the system grants was refused: {old:?} to {size}");
                        live[i].verify(old.size(), old.size()).map_err(|e| format!("after a refused reallocation: {e}"))?;
                        refused += 1;
                        continue;
                    }
                    ensure_r!((size as u64) < ABSURD, "a reallocation the system refuses was granted: {old:?} to {size}");
                    reallocs += 1;
                    spans.remove(&(live[i].ptr as usize));
                    place(&mut spans, ptr, &new)?;
                    let b = &mut live[i];
                    b.ptr = ptr;
                    b.layout = new;
                    b.verify(size.min(old.size()), old.size()).map_err(|e| format!("after a reallocation from {old:?}: {e}"))?;
                    b.fill(0);
                },
                BlockOp::Free { block } => if !live.is_empty() {
                    let i = *block as usize % live.len();
                    let b = live.swap_remove(i);
                    b.verify(b.layout.size(), b.layout.size())?;
                    b.soil();
                    spans.remove(&(b.ptr as usize));
                    unsafe { allocator.d(b.ptr, b.layout) };
                    frees += 1;
                },
                BlockOp::Verify { block } => if !live.is_empty() { let b = &live[*block as usize % live.len()]; b.verify(b.layout.size(), b.layout.size())?; },
            }
        }
        for b in &live { b.verify(b.layout.size(), b.layout.size())?; }
        Ok(())
    };
    let result = steps();
    for b in live.drain(..) { unsafe { allocator.d(b.ptr, b.layout) } }
    result.map(|_| (reallocs, recycled, refused))
}

/// makes sure the sizes taken as refused really are
pub fn assert_system_refuses() {
    for align in [1usize, 16, 4096] { assert!(black_box(unsafe { System.alloc(Layout::from_size_align(black_box(ABSURD) as usize, align).unwrap()) }).is_null()); }
}

pub fn props() -> Vec<Prop> {
    let capacity = || prop_oneof![Just(1usize), Just(2), Just(3), Just(4), Just(5), Just(7), Just(8), Just(16), Just(64)];
    vec![
    Prop { id: "C04", rule: "histories of 1..60 allocator operations (alloc, alloc_zeroed, realloc, dealloc; sizes from 1 byte to 9 GiB and absurd ones, which the system refuses; alignments 1..65536) with save points and reads, on a fresh private allocator or on the global one; nontrivial: at least one window was read and there was a reallocation or a refusal",
        assumptions: vec!["single threaded (C07 covers concurrency)", "blocks beyond 1 MiB are requested with alignments up to 16 (so they don't get touched)"],
        subs: vec![Sub::new("counts", 350_000, 15_000_000, (capacity(), ops(true, false, 60)).prop_map(|(capacity, ops)| History { capacity, ops }), check_counts),
            Sub::new("global-counts", 60_000, 3_000_000, ops(true, false, 60).prop_map(|ops| History { capacity: 0, ops }), check_counts)] },
    Prop { id: "C05", rule: "histories of 1..150 operations mixing save points (alone or in bursts, kept or not), heap operations and reads (repeated, in any order) over capacities 1..1024, on a fresh private allocator or on the global one; nontrivial: at least two reads of windows having later save points",
        assumptions: vec!["single threaded (C07 covers concurrency)"],
        subs: vec![Sub::new("windows", 250_000, 12_000_000, (capacity(), ops(false, true, 150)).prop_map(|(capacity, ops)| History { capacity, ops }), check_windows),
                   Sub::new("windows-1024", 10_000, 300_000, ops(false, true, 60).prop_map(|ops| History { capacity: 1024, ops }), check_windows),
                   Sub::new("global", 50_000, 2_000_000, ops(false, true, 150).prop_map(|ops| History { capacity: 0, ops }), check_windows)] },
    Prop { id: "C06", rule: "histories of 1..120 operations on real blocks, filled with per-block patterns and soiled before being freed, on a private allocator or on the installed global one; nontrivial: at least one reallocation, zeroed allocation after a dirty free or refusal",
        assumptions: vec!["requests from 2^62 bytes on are refused by the system (checked at start) and requests up to 42 MiB are granted"],
        subs: vec![Sub::new("blocks", 40_000, 2_000_000, block_history(), check_blocks)] },
] }
