//! The controlled world the runners are executed in: a virtual clock, real heap usage of generated sizes, the captured standard output
//! and programs of steps ([Step]) charged by the user functions.

use big_o_test::ALLOC;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

// ---- clock ----------------------------------------------------------------------------------------------------------

static VIRTUAL: AtomicBool = AtomicBool::new(false);
/// the virtual now of the main thread -- from where new threads start from, after [START_UP]
static MAIN_NOW: AtomicU64 = AtomicU64::new(0);
/// the virtual time threads take to start
static START_UP: AtomicU64 = AtomicU64::new(0);
pub static SLEEPS: AtomicU64 = AtomicU64::new(0);
pub static SLEPT: AtomicU64 = AtomicU64::new(0);
const ORIGIN: u64 = 3_600_000_000_000;

thread_local! {
    static NOW: Cell<u64> = const { Cell::new(0) };
    static IS_MAIN: Cell<bool> = const { Cell::new(false) };
}

pub fn now() -> u64 {
    NOW.with(|n| {
        if n.get() == 0 { n.set(MAIN_NOW.load(SeqCst) + START_UP.load(SeqCst)); }
        n.get()
    })
}
/// makes the current thread go on with the clock of the main thread
pub fn adopt_main_clock() {
    IS_MAIN.with(|m| m.set(true));
    NOW.with(|n| n.set(MAIN_NOW.load(SeqCst)));
}
/// makes virtual time pass for the current thread
pub fn charge(ns: u64) {
    let t = now().saturating_add(ns);
    NOW.with(|n| n.set(t));
    if IS_MAIN.with(|m| m.get()) { MAIN_NOW.store(t, SeqCst); }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if VIRTUAL.load(Relaxed) {
        // only monotonic clocks are of any use for measuring elapsed times: the wall clock is always being set back here & no processor time is ever spent
        let t = match id { libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_PROCESS_CPUTIME_ID | libc::CLOCK_THREAD_CPUTIME_ID => ORIGIN, _ => now() };
        (*ts).tv_sec = (t / 1_000_000_000) as _;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
    }
}
unsafe fn sleep_until_or_for(absolute: bool, req: *const libc::timespec) {
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let ns = if absolute { ns.saturating_sub(now()) } else { ns };
    SLEEPS.fetch_add(1, SeqCst);
    SLEPT.fetch_add(ns, SeqCst);
    charge(ns);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if VIRTUAL.load(Relaxed) { sleep_until_or_for(false, req); 0 }
    else { libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if VIRTUAL.load(Relaxed) { sleep_until_or_for(flags & libc::TIMER_ABSTIME != 0, req); 0 }
    else if libc::syscall(libc::SYS_clock_nanosleep, id, flags, req, rem) == 0 { 0 } else { *libc::__errno_location() }
}
/// real time, for watchdogs inside of the virtual world
pub fn real_ns() -> u64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

// ---- the world ------------------------------------------------------------------------------------------------------

/// the virtual world exists while this does
pub struct World(());
impl World {
    pub fn enter(thread_start_up_ns: u64) -> World {
        IS_MAIN.with(|m| m.set(true));
        NOW.with(|n| n.set(ORIGIN));
        MAIN_NOW.store(ORIGIN, SeqCst);
        START_UP.store(thread_start_up_ns, SeqCst);
        SLEEPS.store(0, SeqCst);
        SLEPT.store(0, SeqCst);
        free_everything();
        capture_begin();
        VIRTUAL.store(true, SeqCst);
        World(())
    }
}
impl Drop for World {
    fn drop(&mut self) {
        VIRTUAL.store(false, SeqCst);
        free_everything();
    }
}

// ---- standard output ------------------------------------------------------------------------------------------------

static CAPTURING: AtomicBool = AtomicBool::new(false);
/// redirects file descriptor 1 to memory
pub fn init() {
    unsafe {
        let fd = libc::memfd_create(c"report".as_ptr(), 0);
        assert!(fd >= 0);
        assert!(libc::dup2(fd, 1) == 1);
        libc::close(fd);
    }
    CAPTURING.store(true, SeqCst);
    print!("x");
    _ = std::io::Write::flush(&mut std::io::stdout());
}
pub fn capture_begin() {
    _ = std::io::Write::flush(&mut std::io::stdout());
    if CAPTURING.load(SeqCst) { unsafe { libc::ftruncate(1, 0); libc::lseek(1, 0, libc::SEEK_SET); } }
}
/// everything printed since [capture_begin()]
pub fn captured() -> String {
    _ = std::io::Write::flush(&mut std::io::stdout());
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { libc::pread(1, buf.as_mut_ptr() as *mut _, buf.len(), out.len() as i64) };
        if n <= 0 { break; }
        out.extend_from_slice(&buf[..n as usize]);
    }
    String::from_utf8_lossy(&out).into_owned()
}

// ---- heap -----------------------------------------------------------------------------------------------------------

const BLOCKS: usize = 4096;
struct Blocks { n: usize, ptr: [usize; BLOCKS], size: [usize; BLOCKS] }
static HEAP: Mutex<Blocks> = Mutex::new(Blocks { n: 0, ptr: [0; BLOCKS], size: [0; BLOCKS] });

fn layout(size: usize) -> Layout { Layout::from_size_align(size, 8).unwrap() }
fn raw_alloc(size: usize) -> usize {
    if size == 0 { return 0; }
    let p = unsafe { ALLOC.alloc(layout(size)) } as usize;
    assert!(p != 0, "harness: out of memory for {size} bytes");
    p
}
fn raw_free(ptr: usize, size: usize) { if ptr != 0 { unsafe { ALLOC.dealloc(ptr as *mut u8, layout(size)) } } }
fn heap() -> std::sync::MutexGuard<'static, Blocks> { HEAP.lock().unwrap_or_else(|e| e.into_inner()) }

/// allocates and keeps
pub fn keep(size: usize) {
    let mut h = heap();
    let n = h.n;
    assert!(n < BLOCKS, "harness: too many blocks");
    h.ptr[n] = raw_alloc(size);
    h.size[n] = size;
    h.n += 1;
}
/// frees the `k`-th kept block (modulo their number)
pub fn free(k: usize) {
    let mut h = heap();
    if h.n == 0 { return; }
    let i = k % h.n;
    let (p, s) = (h.ptr[i], h.size[i]);
    h.n -= 1;
    let last = h.n;
    h.ptr[i] = h.ptr[last];
    h.size[i] = h.size[last];
    raw_free(p, s);
}
/// allocates and frees -- no two spikes ever overlap
pub fn spike(size: usize) {
    let _h = heap();
    let p = raw_alloc(size);
    raw_free(p, size);
}
pub fn free_everything() { while { let n = heap().n; n > 0 } { free(0); } }
pub fn kept_bytes() -> usize { let h = heap(); (0..h.n).map(|i| h.size[i]).sum() }

// ---- programs -------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Time(u64),
    Keep(u32),
    Free(u8),
    Spike(u32),
    /// async only: suspends, during which somebody else does these
    Suspend(Vec<Step>),
}
pub fn run_step(s: &Step) {
    match s {
        Step::Time(ns) => charge(*ns),
        Step::Keep(size) => keep(*size as usize),
        Step::Free(k) => free(*k as usize),
        Step::Spike(size) => spike(*size as usize),
        Step::Suspend(steps) => steps.iter().for_each(run_step),
    }
}
pub fn run_steps(steps: &[Step]) { steps.iter().for_each(run_step) }
pub async fn run_steps_async(steps: &[Step]) {
    for s in steps {
        match s {
            Step::Suspend(others) => suspend(others).await,
            s => run_step(s),
        }
    }
}

/// the names given to what is tested: mostly a simple one, for the others to be found by chance
pub fn test_name(k: u64) -> &'static str {
    const NAMES: [&str; 8] = ["", " ", "{}{:?}{0}%s\\n", "ação de µ-benchmarks — Größenänderung ñ × 𝛌 漢字", "line 1\nline 2\tand\0more\r\n", "漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢", "x漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢",
        "uma operação qualquer com um nome comprido o suficiente para não caber em linha alguma: é só para ver se ninguém o corta no meio de um caractere — «ééééééééééééééééééééééééééééééééééééééééééééééééééééééé» ééééééééééééééééééééééééééééééééééééééééééééééééééééééé"];
    let k = (k ^ k >> 32).wrapping_mul(0x9e3779b97f4a7c15) >> 40;
    if k % 4 == 0 { NAMES[(k / 4 % 8) as usize] } else { "sut" }
}
/// uses that many KiB of the stack
#[inline(never)]
pub fn deep(kib: u32) -> u32 {
    let frame = std::hint::black_box([kib as u8; 1024]);
    if kib <= 1 { return frame[1000] as u32; }
    deep(kib - 1) ^ frame[kib as usize % 1024] as u32
}

/// what a pass should be charged for
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Charged { pub ns: u64, pub up: u64, pub down: u64, pub net: i64 }
/// the model of the steps
#[derive(Clone, Default)]
pub struct Model { pub live: Vec<u64> }
impl Model {
    pub fn level(&self) -> i64 { self.live.iter().sum::<u64>() as i64 }
    pub fn run(&mut self, steps: &[Step]) -> Charged {
        let start = self.level();
        let (mut lo, mut hi, mut ns) = (start, start, 0u64);
        self.walk(steps, &mut lo, &mut hi, &mut ns);
        Charged { ns, up: (hi - start) as u64, down: (start - lo) as u64, net: self.level() - start }
    }
    fn walk(&mut self, steps: &[Step], lo: &mut i64, hi: &mut i64, ns: &mut u64) {
        for s in steps {
            match s {
                Step::Time(t) => *ns += t,
                Step::Keep(size) => self.live.push(*size as u64),
                Step::Free(k) => if !self.live.is_empty() { let i = *k as usize % self.live.len(); self.live.swap_remove(i); },
                Step::Spike(size) => *hi = (*hi).max(self.level() + *size as i64),
                Step::Suspend(steps) => self.walk(steps, lo, hi, ns),
            }
            *lo = (*lo).min(self.level());
            *hi = (*hi).max(self.level());
        }
    }
}

pub fn size_strategy() -> BoxedStrategy<u32> {
    prop_oneof![4 => 1u32..1100, 3 => 1024u32..(1 << 20), 3 => (1u32 << 20)..(1 << 26), 1 => (0u32..27).prop_map(|b| 1 << b), 1 => Just(0u32)].boxed()
}
pub fn ns_strategy() -> BoxedStrategy<u64> {
    prop_oneof![2 => 1u64..1000, 2 => 1000u64..1_000_000, 3 => 1_000_000u64..1_000_000_000, 2 => 1_000_000_000u64..5_000_000_000_000, 1 => 5_000_000_000_000u64..10_000_000_000_000_000, 1 => Just(0u64)].boxed()
}
pub fn steps(max: usize, suspensions: bool) -> BoxedStrategy<Vec<Step>> {
    let basic = || prop_oneof![3 => ns_strategy().prop_map(Step::Time), 3 => size_strategy().prop_map(Step::Keep), 3 => any::<u8>().prop_map(Step::Free), 2 => size_strategy().prop_map(Step::Spike)];
    if suspensions {
        prop::collection::vec(prop_oneof![4 => basic(), 1 => prop::collection::vec(basic(), 0..4).prop_map(Step::Suspend)], 0..max).boxed()
    } else {
        prop::collection::vec(basic(), 0..max).boxed()
    }
}

// ---- async ----------------------------------------------------------------------------------------------------------

/// what happens during the current suspension
static SUSPENDED: Mutex<Option<(usize, usize)>> = Mutex::new(None);

struct Suspension<'a> { others: &'a [Step], suspended: bool }
impl Future for Suspension<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.suspended { return Poll::Ready(()); }
        self.suspended = true;
        *SUSPENDED.lock().unwrap_or_else(|e| e.into_inner()) = Some((self.others.as_ptr() as usize, self.others.len()));
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub async fn suspend(others: &[Step]) { Suspension { others, suspended: false }.await }

/// runs the steps of others whenever the wrapped future suspends itself through [suspend()]
struct Interleaved<F> { inner: Pin<Box<F>> }
impl<F: Future> Future for Interleaved<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let r = self.inner.as_mut().poll(cx);
        let others = SUSPENDED.lock().unwrap_or_else(|e| e.into_inner()).take();
        if let (Poll::Pending, Some((ptr, len))) = (&r, others) {
            // safe: the steps belong to the suspended future
            run_steps(unsafe { std::slice::from_raw_parts(ptr as *const Step, len) });
        }
        r
    }
}
/// runs a future on a runtime with paused time
pub fn block_on<F: Future>(f: F) -> F::Output {
    *SUSPENDED.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(Interleaved { inner: Box::pin(f) })
}

/// a log of events which never allocates
pub struct Log<T> { items: Mutex<Vec<T>>, limit: usize }
impl<T: Clone> Log<T> {
    pub fn new(limit: usize) -> Arc<Log<T>> { Arc::new(Log { items: Mutex::new(Vec::with_capacity(limit)), limit }) }
    pub fn push(&self, t: T) {
        let mut items = self.items.lock().unwrap_or_else(|e| e.into_inner());
        if items.len() == self.limit { drop(items); panic!("RUNAWAY: the user functions are being called endlessly"); }
        items.push(t);
    }
    /// looks at the events, without copying them
    pub fn with<R>(&self, f: impl FnOnce(&[T]) -> R) -> R { f(&self.items.lock().unwrap_or_else(|e| e.into_inner())) }
    pub fn len(&self) -> usize { self.items.lock().unwrap_or_else(|e| e.into_inner()).len() }
    pub fn all(&self) -> Vec<T> { self.items.lock().unwrap_or_else(|e| e.into_inner()).clone() }
}
