//! A deterministic scheduler of virtual threads (coroutines): every atomic access is a scheduling point. Which thread executes each of them,
//! and which weak compare-exchanges fail spuriously, is given. Values are sequentially consistent; on top of them, the happens-before
//! relation the memory orderings really give is tracked through vector clocks.

use ::std::cell::{Cell, UnsafeCell};
use ::std::collections::{HashMap, VecDeque};
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::atomic::Ordering;
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};

pub const MAX_THREADS: usize = 12;
pub type Clock = [u32; MAX_THREADS];

#[derive(Clone, Debug, Default)]
pub struct Schedule {
    /// after that many more steps of the current thread, switch to that one of the others
    pub preemptions: Vec<(u8, u8)>,
    /// after that many more weak compare-exchanges, one fails spuriously
    pub spurious: Vec<u8>,
    /// after that many more loads of [Self::weak] memory for which an older value may be seen, one sees that older one
    pub stale: Vec<(u8, u8)>,
    /// the ranges of addresses whose loads aren't always given the newest value: they may see any value which neither coherence nor the happens-before relation forbids
    pub weak: Vec<(usize, usize)>,
}

/// a thread isn't left to run for more than this many steps, so waiting for others always ends
const TURN: u32 = 50;

struct Thread { yielder: *const Yielder<(), ()>, done: bool, clock: Clock, pending_acquire: Clock, fence_release: Clock }
/// a value a location had: given by whom and when, what it makes visible, and by whom it was seen (since when)
struct Store { bits: u64, by: usize, tick: u32, release: Clock, readers: Clock }
#[derive(Default)]
struct Location {
    release: Clock,
    /// the latest values, for weak memory only, following `forgotten` ones
    stores: VecDeque<Store>,
    forgotten: u64,
    /// the oldest value each thread may still see
    seen: [u64; MAX_THREADS],
}
/// more values than these aren't kept
const HISTORY: usize = 10;

struct Exec {
    threads: Vec<Thread>,
    current: usize,
    next: usize,
    schedule: Schedule,
    next_preemption: usize,
    gap: u32,
    turn: u32,
    next_spurious: usize,
    spurious_gap: u32,
    next_stale: usize,
    stale_gap: u32,
    stale_loads: u64,
    steps: u64,
    limit: u64,
    abort: bool,
    switches: u64,
    locations: HashMap<usize, Location>,
}

struct Aborted;

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static EXEC: UnsafeCell<Option<Exec>> = const { UnsafeCell::new(None) };
    static STACKS: UnsafeCell<Vec<DefaultStack>> = const { UnsafeCell::new(Vec::new()) };
}
fn exec() -> &'static mut Exec { EXEC.with(|e| unsafe { (*e.get()).as_mut().unwrap() }) }

/// whether the caller is a virtual thread
pub fn active() -> bool { ACTIVE.with(|a| a.get()) && !::std::thread::panicking() }
/// the number of the current virtual thread
pub fn current() -> usize { exec().current }
/// steps executed so far
pub fn now() -> u64 { exec().steps }

#[derive(Debug)]
pub struct Report {
    /// messages of the threads that panicked
    pub panics: Vec<(usize, String)>,
    /// threads which were still running after the limit of steps
    pub stuck: Vec<usize>,
    pub steps: u64,
    pub switches: u64,
    /// loads that saw an older value
    pub stale_loads: u64,
}

fn join(a: &mut Clock, b: &Clock) { for i in 0..MAX_THREADS { a[i] = a[i].max(b[i]); } }

/// runs the threads to their ends, according to the schedule
pub fn run<'a>(schedule: Schedule, limit: u64, bodies: Vec<Box<dyn FnOnce() + 'a>>) -> Report {
    assert!(bodies.len() <= MAX_THREADS && !ACTIVE.with(|a| a.get()));
    let n = bodies.len();
    let panics = UnsafeCell::new(Vec::<(usize, String)>::new());
    let panics_ptr = panics.get() as usize;
    let threads = (0..n).map(|i| { let mut clock = [0; MAX_THREADS]; clock[i] = 1; Thread { yielder: ::std::ptr::null(), done: false, clock, pending_acquire: [0; MAX_THREADS], fence_release: [0; MAX_THREADS] } }).collect();
    let mut e = Exec { threads, current: 0, next: 0, schedule, next_preemption: 0, gap: 0, turn: 0, next_spurious: 0, spurious_gap: 0, next_stale: 0, stale_gap: 0, stale_loads: 0, steps: 0, limit, abort: false, switches: 0, locations: HashMap::new() };
    e.load_gap();
    e.load_spurious();
    e.load_stale();
    EXEC.with(|x| unsafe { *x.get() = Some(e) });
    let mut coroutines: Vec<Coroutine<(), (), (), DefaultStack>> = bodies.into_iter().enumerate().map(|(i, body)| {
        // safe: all coroutines end before this function returns
        let body: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(body) };
        let stack = STACKS.with(|s| unsafe { (*s.get()).pop() }).unwrap_or_else(|| DefaultStack::new(256 * 1024).unwrap());
        Coroutine::with_stack(stack, move |yielder: &Yielder<(), ()>, ()| {
            exec().threads[i].yielder = yielder;
            if let Err(p) = catch_unwind(AssertUnwindSafe(body)) {
                if p.downcast_ref::<Aborted>().is_none() {
                    let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    unsafe { (*(panics_ptr as *mut Vec<(usize, String)>)).push((i, msg)); }
                }
            }
        })
    }).collect();
    let mut stuck = vec![];
    let mut running = n;
    while running > 0 {
        let i = exec().next;
        exec().current = i;
        ACTIVE.with(|a| a.set(true));
        let r = coroutines[i].resume(());
        ACTIVE.with(|a| a.set(false));
        let e = exec();
        e.switches += 1;
        if let CoroutineResult::Return(()) = r {
            e.threads[i].done = true;
            running -= 1;
            e.turn = 0;
            if e.abort { stuck.push(i); }
        }
        if running > 0 && e.threads[e.next].done { e.next = e.following(e.next); }
    }
    for c in coroutines { STACKS.with(|s| unsafe { (*s.get()).push(c.into_stack()) }); }
    let e = EXEC.with(|x| unsafe { (*x.get()).take() }).unwrap();
    Report { panics: panics.into_inner(), stuck, steps: e.steps, switches: e.switches, stale_loads: e.stale_loads }
}

impl Exec {
    fn load_gap(&mut self) { self.gap = self.schedule.preemptions.get(self.next_preemption).map(|p| p.0 as u32).unwrap_or(u32::MAX); }
    fn load_spurious(&mut self) { self.spurious_gap = self.schedule.spurious.get(self.next_spurious).map(|g| *g as u32).unwrap_or(u32::MAX); }
    fn load_stale(&mut self) { self.stale_gap = self.schedule.stale.get(self.next_stale).map(|g| g.0 as u32).unwrap_or(u32::MAX); }
    fn is_weak(&self, addr: usize) -> bool { self.schedule.weak.iter().any(|(from, to)| (*from..*to).contains(&addr)) }
    /// the next running thread
    fn following(&self, i: usize) -> usize {
        let n = self.threads.len();
        (1..=n).map(|d| (i + d) % n).find(|j| !self.threads[*j].done).unwrap_or(i)
    }
    fn choose(&mut self) {
        self.steps += 1;
        self.turn += 1;
        if self.steps > self.limit { self.abort = true; }
        if self.gap == 0 {
            let target = self.schedule.preemptions[self.next_preemption].1 as usize;
            self.next_preemption += 1;
            self.load_gap();
            let others: Vec<usize> = (0..self.threads.len()).filter(|i| *i != self.current && !self.threads[*i].done).collect();
            if !others.is_empty() { self.next = others[target % others.len()]; }
        } else {
            if self.gap != u32::MAX { self.gap -= 1; }
            if self.turn > TURN { self.next = self.following(self.current); }
        }
    }
}
fn switch() {
    let e = exec();
    if e.abort { resume_unwind(Box::new(Aborted)); }
    if e.next != e.current {
        e.turn = 0;
        let y = e.threads[e.current].yielder;
        unsafe { (*y).suspend(()); }
        if exec().abort { resume_unwind(Box::new(Aborted)); }
    }
}

/// a scheduling point
pub fn step() {
    if !active() { return; }
    exec().choose();
    switch();
}
/// a scheduling point after which another thread runs, if there is any
pub fn yield_now() {
    if !active() { return; }
    let e = exec();
    e.steps += 1;
    if e.steps > e.limit { e.abort = true; }
    e.next = e.following(e.current);
    switch();
}
pub(crate) fn spurious_failure() -> bool {
    let e = exec();
    if e.spurious_gap == u32::MAX { return false; }
    if e.spurious_gap > 0 { e.spurious_gap -= 1; return false; }
    e.next_spurious += 1;
    e.load_spurious();
    true
}

// ---- happens-before -------------------------------------------------------------------------------------------------

fn acquires(o: Ordering) -> bool { matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) }
fn releases(o: Ordering) -> bool { matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) }

/// an atomic load and / or store
pub(crate) fn on_access(addr: usize, load: Option<Ordering>, store: Option<Ordering>) {
    if !active() { return; }
    let e = exec();
    let t = &mut e.threads[e.current];
    let l = e.locations.entry(addr).or_default();
    if let Some(o) = load {
        if acquires(o) { join(&mut t.clock, &l.release); } else { join(&mut t.pending_acquire, &l.release); }
    }
    if let Some(o) = store {
        // a plain store starts (or, if relaxed, only ends) a release sequence
        l.release = if releases(o) { t.clock } else { t.fence_release };
        t.clock[e.current] += 1;
    }
}
/// an atomic read-modify-write: continues the release sequence
pub(crate) fn on_rmw(addr: usize, o: Ordering) {
    let e = exec();
    let t = &mut e.threads[e.current];
    let l = e.locations.entry(addr).or_default();
    if acquires(o) { join(&mut t.clock, &l.release); } else { join(&mut t.pending_acquire, &l.release); }
    if releases(o) { join(&mut l.release, &t.clock); } else { join(&mut l.release, &t.fence_release); }
    t.clock[e.current] += 1;
}
pub(crate) fn on_fence(o: Ordering) {
    let e = exec();
    let t = &mut e.threads[e.current];
    if acquires(o) { let p = t.pending_acquire; join(&mut t.clock, &p); }
    if releases(o) { t.fence_release = t.clock; t.clock[e.current] += 1; }
    // (stronger than it has to be: from now on, everything is seen)
    if o == Ordering::SeqCst { for l in e.locations.values_mut() { l.see_newest(e.current, 0); } }
}

// ---- weak memory ----------------------------------------------------------------------------------------------------

impl Location {
    fn newest(&self) -> u64 { self.forgotten + self.stores.len() as u64 - 1 }
    fn see_newest(&mut self, thread: usize, tick: u32) {
        if self.stores.is_empty() { return; }
        self.seen[thread] = self.newest();
        let store = self.stores.back_mut().unwrap();
        if store.readers[thread] == 0 { store.readers[thread] = tick; }
    }
    fn add(&mut self, store: Store) {
        self.stores.push_back(store);
        if self.stores.len() > HISTORY { self.stores.pop_front(); self.forgotten += 1; }
    }
}
/// whether values other than the newest may be loaded at all
pub(crate) fn weak_memory() -> bool { !exec().schedule.stale.is_empty() }
/// to be called before each access, with the value the location has
pub(crate) fn before(addr: usize, bits: u64) {
    let e = exec();
    if e.schedule.stale.is_empty() || !e.is_weak(addr) { return; }
    let l = e.locations.entry(addr).or_default();
    // (seen for the first time, or changed by other means)
    if l.stores.back().is_none_or(|s| s.bits != bits) {
        l.forgotten += l.stores.len() as u64;
        l.stores.clear();
        let release = l.release;
        l.add(Store { bits, by: 0, tick: 0, release, readers: [0; MAX_THREADS] });
    }
}
/// an older value for the current thread to load, if it is time for one
pub(crate) fn stale_load(addr: usize, o: Ordering) -> Option<u64> {
    let e = exec();
    if e.stale_gap == u32::MAX || o == Ordering::SeqCst || !e.is_weak(addr) { return None; }
    let current = e.current;
    let l = e.locations.get_mut(&addr)?;
    let newest = l.newest();
    let clock = &e.threads[current].clock;
    let mut oldest = l.seen[current].max(l.forgotten);
    for (i, s) in l.stores.iter().enumerate() {
        if clock[s.by] >= s.tick || (0..MAX_THREADS).any(|t| s.readers[t] != 0 && clock[t] >= s.readers[t]) { oldest = oldest.max(l.forgotten + i as u64); }
    }
    if oldest == newest { return None; }
    if e.stale_gap > 0 { e.stale_gap -= 1; return None; }
    let back = 1 + e.schedule.stale[e.next_stale].1 as u64 % (newest - oldest);
    e.next_stale += 1;
    e.load_stale();
    e.stale_loads += 1;
    let l = e.locations.get_mut(&addr)?;
    let seen = newest - back;
    l.seen[current] = seen;
    let s = &mut l.stores[(seen - l.forgotten) as usize];
    let t = &mut e.threads[current];
    if s.readers[current] == 0 { s.readers[current] = t.clock[current]; }
    let release = s.release;
    if acquires(o) { join(&mut t.clock, &release); } else { join(&mut t.pending_acquire, &release); }
    Some(s.bits)
}
/// to be called after each access but stale loads, with the value the location has & had
pub(crate) fn after(addr: usize, bits: u64, stored: bool) {
    let e = exec();
    if e.schedule.stale.is_empty() || !e.is_weak(addr) { return; }
    let (current, clock) = (e.current, &e.threads[e.current].clock);
    let Some(l) = e.locations.get_mut(&addr) else { return };
    if stored {
        // (the clock already went on)
        let (release, tick) = (l.release, clock[current] - 1);
        l.add(Store { bits, by: current, tick, release, readers: [0; MAX_THREADS] });
    }
    l.see_newest(current, clock[current]);
}
/// a value as bits & back
pub(crate) fn bits<T: Copy>(v: T) -> u64 { let mut b = 0u64; unsafe { ::std::ptr::copy_nonoverlapping(&v as *const T as *const u8, &mut b as *mut u64 as *mut u8, ::std::mem::size_of::<T>()) }; b }
pub(crate) fn from_bits<T: Copy>(b: u64) -> T { unsafe { ::std::mem::transmute_copy(&b) } }
/// marks an event of the current thread, to be used with [knows()]
pub fn event() -> (usize, u32) {
    let e = exec();
    e.threads[e.current].clock[e.current] += 1;
    (e.current, e.threads[e.current].clock[e.current])
}
/// whether the event happens before what the current thread does now
pub fn knows(event: (usize, u32)) -> bool {
    let e = exec();
    e.threads[e.current].clock[event.0] >= event.1
}
/// what the current thread did so far, to be made known to others through [learn()]
pub fn teach(to: &mut Clock) {
    let e = exec();
    join(to, &e.threads[e.current].clock);
    e.threads[e.current].clock[e.current] += 1;
}
pub fn learn(from: &Clock) { let e = exec(); join(&mut e.threads[e.current].clock, from); }
