//! A user of the crate, compiled with each combination of its features (C22):
//! `probe <results file> <scenario> <args>...` -- whatever appears in stdout & stderr comes from the crate

use big_o_test::low_level_analysis::{space_analysis::*, time_analysis::*, types::*};
use big_o_test::{test_algorithm, test_crud_algorithms, BigOAlgorithmComplexity, ALLOC};
use std::alloc::Layout;
use std::cell::Cell;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

// ---- without the metrics, programs may have a global allocator of their own -------------------------------------------

static OWN_ALLOCS: AtomicUsize = AtomicUsize::new(0);
static OWN_FREES: AtomicUsize = AtomicUsize::new(0);
static OWN_REALLOCS: AtomicUsize = AtomicUsize::new(0);
#[cfg(feature = "no_allocator_metrics")]
mod own {
    use super::*;
    use std::alloc::{GlobalAlloc, System};
    struct Own;
    unsafe impl GlobalAlloc for Own {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { OWN_ALLOCS.fetch_add(1, SeqCst); System.alloc(l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { OWN_ALLOCS.fetch_add(1, SeqCst); System.alloc_zeroed(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { OWN_FREES.fetch_add(1, SeqCst); System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { OWN_REALLOCS.fetch_add(1, SeqCst); System.realloc(p, l, n) }
    }
    #[global_allocator]
    static OWN: Own = Own;
}

// ---- virtual time ---------------------------------------------------------------------------------------------------

static MAIN_NOW: AtomicU64 = AtomicU64::new(3_600_000_000_000);
thread_local! { static NOW: Cell<u64> = const { Cell::new(0) }; static IS_MAIN: Cell<bool> = const { Cell::new(false) } }
fn now() -> u64 { NOW.with(|n| { if n.get() == 0 { n.set(MAIN_NOW.load(SeqCst)); } n.get() }) }
fn charge(ns: u64) {
    let t = now() + ns;
    NOW.with(|n| n.set(t));
    if IS_MAIN.with(|m| m.get()) { MAIN_NOW.store(t, SeqCst); }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let t = now();
    (*ts).tv_sec = (t / 1_000_000_000) as _;
    (*ts).tv_nsec = (t % 1_000_000_000) as _;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const libc::timespec, _: *mut libc::timespec) -> libc::c_int {
    charge((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_: libc::clockid_t, flags: libc::c_int, r: *const libc::timespec, _: *mut libc::timespec) -> libc::c_int {
    let ns = (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64;
    charge(if flags & libc::TIMER_ABSTIME != 0 { ns.saturating_sub(now()) } else { ns });
    0
}

fn spike(size: usize) {
    if size == 0 { return; }
    let l = Layout::from_size_align(size, 8).unwrap();
    unsafe { let p = std::alloc::alloc(l); assert!(!p.is_null()); std::alloc::dealloc(p, l); }
}

const ALL: [BigOAlgorithmComplexity; 17] = { use BigOAlgorithmComplexity::*; [
    BetterThanO1, O1, BetweenO1AndOLogN, OLogN, BetweenOLogNAndON, ON, BetweenONAndONLogN, ONLogN,
    BetweenONLogNAndON2, ON2, BetweenON2AndON3, ON3, BetweenON3AndON4, ON4, BetweenON4AndOkN, OkN, WorseThanExponential] };

struct Args(Vec<String>, usize);
impl Args {
    fn text(&mut self) -> String { self.1 += 1; self.0[self.1 - 1].clone() }
    fn n(&mut self) -> u64 { self.text().parse().unwrap() }
    fn c(&mut self) -> BigOAlgorithmComplexity { let n = self.n(); ALL[n as usize] }
    fn more(&self) -> bool { self.1 < self.0.len() }
}
fn outcome(out: &mut String, f: impl FnOnce()) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => out.push_str("accepted\n"),
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            _ = write!(out, "refused {}\n", msg.replace('\n', "\\n"));
        },
    }
}

/// stands for the async builder, if the crate has none
mod fallback { pub struct RegularAsyncAnalyzerBuilder<A, B, C, D, E>(pub A, pub B, pub C, pub D, pub E); }
use fallback::RegularAsyncAnalyzerBuilder;
fn async_builder_is_there() -> bool {
    // what is imported by a glob in the innermost scope is found before anything in the outer ones
    #[allow(unused_imports)]
    use big_o_test::*;
    type Ready = std::future::Ready<u8>;
    type Pass = fn(Option<u8>) -> Ready;
    !std::any::type_name::<RegularAsyncAnalyzerBuilder<Pass, Ready, Pass, Ready, u8>>().contains("fallback")
}

fn main() {
    IS_MAIN.with(|m| m.set(true));
    std::panic::set_hook(Box::new(|_| {}));
    // lazily allocated things are allocated now, so they don't show up in the reports
    print!("");
    eprint!("");
    _ = std::io::Write::flush(&mut std::io::stdout());
    let mut a = Args(std::env::args().collect(), 1);
    let results = a.text();
    let mut out = String::with_capacity(1 << 16);
    let scenario = a.text();
    match scenario.as_str() {
        "verdicts" => while a.more() {
            let kind = a.text();
            let (n1, n2, u1, u2) = (a.n() as u32, a.n() as u32, a.n(), a.n());
            let time = BigOTimeMeasurements { pass_1_measurements: Duration::from_nanos(u1), pass_2_measurements: Duration::from_nanos(u2) };
            let space_pass = |u: u64| BigOSpacePassMeasurements { used_memory_before: 1000, max_used_memory: 1000 + u as usize, min_used_memory: 1000, used_memory_after: 1000 };
            let space = BigOSpaceMeasurements { pass_1_measurements: space_pass(u1), pass_2_measurements: space_pass(u2) };
            let v = match kind.as_str() {
                "time" => analyse_time_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, &time),
                "space" => analyse_space_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, &space),
                "constant-time" => analyse_time_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: n1 }, &time),
                "constant-space" => analyse_space_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: n1 }, &space),
                "resizing-time" => analyse_time_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 }, &time),
                "resizing-space" => analyse_space_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 }, &space),
                k => panic!("{k}"),
            };
            _ = write!(out, "{}\n", ALL.iter().position(|c| *c == v).unwrap());
        },
        "heap" => {
            let mut blocks: Vec<(*mut u8, Layout)> = Vec::with_capacity(4096);
            // arguments are read beforehand: they allocate
            let mut ops: Vec<(u8, u64, u64)> = vec![];
            while a.more() { let k = a.text().as_bytes()[0]; ops.push((k, a.n(), a.n())); }
            let own = (OWN_ALLOCS.load(SeqCst), OWN_FREES.load(SeqCst), OWN_REALLOCS.load(SeqCst));
            let sp = ALLOC.save_point();
            for (k, x, y) in &ops {
                match k {
                    b'a' | b'z' => {
                        let l = Layout::from_size_align(*x as usize, 1 << y).unwrap();
                        let p = unsafe { if *k == b'a' { std::alloc::alloc(l) } else { std::alloc::alloc_zeroed(l) } };
                        assert!(!p.is_null());
                        blocks.push((p, l));
                    },
                    b'r' => if !blocks.is_empty() {
                        let i = *x as usize % blocks.len();
                        let (p, l) = blocks[i];
                        let p = unsafe { std::alloc::realloc(p, l, *y as usize) };
                        assert!(!p.is_null());
                        blocks[i] = (p, Layout::from_size_align(*y as usize, l.align()).unwrap());
                    },
                    b'f' => if !blocks.is_empty() {
                        let (p, l) = blocks.swap_remove(*x as usize % blocks.len());
                        unsafe { std::alloc::dealloc(p, l); }
                    },
                    // as most programs do it
                    b'v' => { let v: Vec<u8> = Vec::with_capacity(*x as usize); std::hint::black_box(&v); },
                    b'b' => { let b = Box::new([0u64; 5]); std::hint::black_box(&b); },
                    b't' => { std::thread::scope(|s| { s.spawn(|| { let v: Vec<u8> = Vec::with_capacity(*x as usize); std::hint::black_box(&v); }); }); },
                    k => panic!("{k}"),
                }
            }
            let s = ALLOC.delta_statistics(&sp).unwrap();
            let own = (OWN_ALLOCS.load(SeqCst) - own.0, OWN_FREES.load(SeqCst) - own.1, OWN_REALLOCS.load(SeqCst) - own.2);
            _ = write!(out, "before {}\ncounts {} {} {} {}\nbytes {} {} {} {} {}\nlevel {} {} {}\nown {} {} {}\n", sp.metrics.current_used_memory,
                s.allocations_count, s.deallocations_count, s.zeroed_allocations_count, s.reallocations_count,
                s.allocated_bytes, s.deallocated_bytes, s.zeroed_allocated_bytes, s.reallocated_originals_bytes, s.reallocated_news_bytes,
                s.current_used_memory, s.min_used_memory, s.max_used_memory, own.0, own.1, own.2);
        },
        "sync" => {
            let (name, retries, n1, t1, h1, n2, t2, h2, tl, sl) = (a.text(), a.n() as u32, a.n() as u32, a.n(), a.n() as usize, a.n() as u32, a.n(), a.n() as usize, a.c(), a.c());
            outcome(&mut out, || test_algorithm(&name, retries, || charge(77), n1, || { charge(t1); spike(h1); 1 }, n2, || { charge(t2); spike(h2); 2 }, tl, sl));
        },
        "crud" => {
            let (name, attempts, warmup, iterations, threads) = (a.text(), a.n() as u32, a.n() as u32, a.n() as u32, a.n() as u32);
            let t: Vec<u64> = (0..4).map(|_| a.n()).collect();
            let l: Vec<BigOAlgorithmComplexity> = (0..4).map(|_| a.c()).collect();
            let w = BigOAlgorithmComplexity::WorseThanExponential;
            let op = |i: usize| { let t = t[i]; move |n: u32| { charge(t); n } };
            outcome(&mut out, || test_crud_algorithms(&name, attempts, |n| { charge(7); n }, op(0), l[0], w, op(1), l[1], w, op(2), l[2], w, op(3), l[3], w,
                warmup, iterations, iterations, iterations, iterations, threads, threads, threads, threads));
        },
        "async" => {
            let (name, retries, n1, t1, h1, n2, t2, h2, tl, sl) = (a.text(), a.n() as u32, a.n() as u32, a.n(), a.n() as usize, a.n() as u32, a.n(), a.n() as usize, a.c(), a.c());
            #[cfg(feature = "async")]
            outcome(&mut out, || {
                let b = big_o_test::RegularAsyncAnalyzerBuilder::new(name)
                    .first_pass(n1, move |_: Option<u32>| async move { charge(t1); spike(h1); 1u32 })
                    .second_pass(n2, move |_: Option<u32>| async move { charge(t2); spike(h2); 2u32 })
                    .with_max_reattempts(retries)
                    .with_time_measurements(tl)
                    .with_space_measurements(sl);
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
                rt.block_on(b.test_algorithm())
            });
            #[cfg(not(feature = "async"))]
            { _ = (name, retries, n1, t1, h1, n2, t2, h2, tl, sl); }
        },
        "async?" => _ = write!(out, "{}\n", async_builder_is_there()),
        s => panic!("{s}"),
    }
    std::fs::write(results, out).unwrap();
}
