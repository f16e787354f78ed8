//! The property-based testing engine shared by all checks: sharded case generation (proptest strategies), shrinking,
//! crash containment (every shard is a process of its own), replay files, known findings and evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, SystemTime};

/// what a check says about one case
pub enum Outcome {
    /// the property held; `nontrivial` by the rule of the property; `class` labels for the histogram
    Pass { nontrivial: bool, classes: Vec<String> },
    /// the case says nothing (undecidable by the oracle -- on an exact boundary, for instance)
    Skip(&'static str),
    /// the property is broken
    Fail { msg: String, sig: String },
}
pub fn pass(nontrivial: bool, class: impl Into<String>) -> Outcome {
    Outcome::Pass { nontrivial, classes: vec![class.into()] }
}
pub fn pass_multi(nontrivial: bool, classes: Vec<String>) -> Outcome {
    Outcome::Pass { nontrivial, classes }
}
pub fn fail(msg: impl Into<String>) -> Outcome {
    Outcome::Fail { msg: msg.into(), sig: String::new() }
}
/// returns from a check with a failure if the condition doesn't hold
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return $crate::fail(format!($($arg)*)); } }
}
/// same, for helper functions returning `Result<_, String>`
#[macro_export]
macro_rules! ensure_r {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } }
}

type WorkFn = Box<dyn Fn(&mut ShardCtx) -> Option<Failure>>;
/// (seed, property, sub-check, shard), number of the case, whether a case is broken -> (the case, the smallest broken one, steps)
type LocateFn = Box<dyn Fn((u64, &'static str, &'static str, u64), u64, &mut dyn FnMut(&Value) -> bool) -> Option<(Value, Value, u64)>>;
type ReplayFn = Box<dyn Fn(&Value) -> Result<Outcome, String>>;

/// a generated-input search: one strategy, one oracle
pub struct Sub {
    pub name: &'static str,
    /// total number of cases (over all shards) for the quick & thorough tiers
    pub quick: u64,
    pub thorough: u64,
    work: WorkFn,
    replay: ReplayFn,
    locate: LocateFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub sub: String,
    pub case: Value,
    pub msg: String,
    pub sig: String,
    pub shrink_steps: u64,
    pub original: Value,
}

#[derive(Serialize, Deserialize, Default)]
struct ShardReport {
    evaluations: u64,
    skipped: BTreeMap<String, u64>,
    classes: BTreeMap<String, u64>,
    nontrivial: u64,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    harness_error: Option<String>,
    failure: Option<Failure>,
}

pub struct ShardCtx {
    prop: &'static str,
    sub: &'static str,
    cases: u64,
    seed: u64,
    shard: u64,
    report: ShardReport,
    hashes: HashSet<u64>,
    sub_index: u64,
    beat: Beat,
    known_sigs: Vec<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
/// panics of the harness' own code, on any thread, other than the ones it raises on purpose
static HARNESS_PANIC: Mutex<Option<String>> = Mutex::new(None);

/// silences panics, remembering the last one: (message, location)
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if is_harness_location(&loc) && !msg.starts_with("INJECTED") && !msg.starts_with("RUNAWAY") {
            *HARNESS_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("the harness panicked at {loc}: {msg}"));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
pub fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else if p.is::<Injected>() { "INJECTED payload".to_string() }
    else { "<opaque panic payload>".to_string() }
}
/// what a user function may panic with
#[derive(Debug)]
pub struct Injected(pub u64);
/// panics, on purpose, with one of several kinds of payload
pub fn inject(kind: u8) -> ! {
    match kind % 4 {
        0 => panic!("INJECTED"),
        1 => panic!("INJECTED {kind}"),
        2 => std::panic::panic_any(Injected(kind as u64)),
        // (no panic hook is run for this one)
        _ => std::panic::resume_unwind(Box::new(Injected(kind as u64))),
    }
}
/// runs `f`, returning the message of its panic, if any
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => Err(payload_str(&*p)),
    }
}

fn is_harness_location(loc: &str) -> bool {
    // harness crates are compiled with relative paths ("src/..."); the code under test, with absolute ones
    loc.starts_with("src/") || (loc.contains("/verif/") && !loc.contains("/gen/sut/"))
}

fn hash64(x: &impl Hash) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.finish()
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { let mut z = self.0; z ^= z >> 32; z = z.wrapping_mul(0xd6e8feb86659fd93); z ^ (z >> 29) }
    fn write(&mut self, bytes: &[u8]) { for b in bytes { self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3); } }
}

fn guarded<V>(check: &dyn Fn(&V) -> Outcome, v: &V) -> Result<Outcome, String> {
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(v)));
    if let Some(e) = HARNESS_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take() { return Err(e); }
    match result {
        Ok(o) => Ok(o),
        Err(p) => {
            let msg = payload_str(&*p);
            let loc = LAST_PANIC.with(|l| l.borrow().as_ref().map(|x| x.1.clone())).unwrap_or_default();
            Ok(fail(format!("unexpected panic at {loc}: {msg}")))
        }
    }
}

impl Sub {
    pub fn new<V, S, F>(name: &'static str, quick: u64, thorough: u64, strategy: S, check: F) -> Sub
        where V: Serialize + DeserializeOwned + Debug + Clone + 'static, S: Strategy<Value = V> + 'static, F: Fn(&V) -> Outcome + Clone + 'static {
        let strategy: BoxedStrategy<V> = strategy.boxed();
        let (strategy2, check2) = (strategy.clone(), check.clone());
        Sub {
            name, quick, thorough,
            work: Box::new(move |ctx| ctx.search(&strategy, &check)),
            replay: Box::new(move |v| {
                let v: V = serde_json::from_value(v.clone()).map_err(|e| format!("replay file: {e}"))?;
                guarded(&check2, &v)
            }),
            locate: Box::new(move |(seed, prop, sub, shard), case_no, broken| {
                let mut runner = runner(seed, prop, sub, shard);
                for _ in 0..case_no { strategy2.new_tree(&mut runner).ok()?; }
                let mut tree = strategy2.new_tree(&mut runner).ok()?;
                let original = serde_json::to_value(tree.current()).ok()?;
                let (mut best, mut steps) = (original.clone(), 0);
                if broken(&original) && tree.simplify() {
                    let start = SystemTime::now();
                    while start.elapsed().unwrap_or_default() < Duration::from_secs(60) {
                        let v = serde_json::to_value(tree.current()).ok()?;
                        if broken(&v) {
                            best = v;
                            steps += 1;
                            if !tree.simplify() { break; }
                        } else if !tree.complicate() { break; }
                    }
                }
                Some((original, best, steps))
            }),
        }
    }
}

/// the generator of all the cases of a shard
fn runner(seed: u64, prop: &'static str, sub: &'static str, shard: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    for i in 0..4u64 { bytes[i as usize * 8..][..8].copy_from_slice(&hash64(&(seed, prop, sub, shard, i)).to_le_bytes()); }
    let config = Config { failure_persistence: None, max_local_rejects: 1_000_000, max_global_rejects: 1_000_000, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

/// tells the parent which case a worker is at: memory shared through a file with (number of the sub-check, number of the case, steps done)
struct Beat(*mut u64);
impl Beat {
    fn create(path: &Path) -> Beat {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Beat(p as *mut u64)
    }
    fn at(&self, sub: u64, case_no: u64) { unsafe { self.0.write_volatile(sub + 1); self.0.add(1).write_volatile(case_no); } self.step(); }
    fn step(&self) { unsafe { let p = self.0.add(2); p.write_volatile(p.read_volatile() + 1); } }
    /// (sub-check, case, steps)
    fn read(path: &Path) -> Option<(u64, u64, u64)> {
        let b = std::fs::read(path).ok()?;
        let at = |i: usize| Some(u64::from_le_bytes(b.get(i * 8..i * 8 + 8)?.try_into().ok()?));
        Some((at(0)?.checked_sub(1)?, at(1)?, at(2)?))
    }
}

impl ShardCtx {
    fn search<V: Serialize + Debug + Clone + 'static>(&mut self, strategy: &BoxedStrategy<V>, check: &dyn Fn(&V) -> Outcome) -> Option<Failure> {
        let mut runner = runner(self.seed, self.prop, self.sub, self.shard);
        let sample_at: Vec<u64> = vec![0, self.cases / 3, self.cases * 2 / 3];
        let mut want_sample = false;
        for case_no in 0..self.cases {
            let mut tree = match strategy.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => { self.report.harness_error = Some(format!("generator: {e}")); return None; }
            };
            let v = tree.current();
            self.beat.at(self.sub_index, case_no);
            let outcome = match guarded(check, &v) {
                Ok(o) => o,
                Err(e) => { self.report.harness_error = Some(format!("{}: {e}; case: {}", self.sub, serde_json::to_string(&v).unwrap_or_default())); return None; }
            };
            self.report.evaluations += 1;
            if sample_at.contains(&case_no) { want_sample = true; }
            match outcome {
                Outcome::Pass { nontrivial, classes } => {
                    for c in classes { *self.report.classes.entry(format!("{}/{}", self.sub, c)).or_default() += 1; }
                    if nontrivial {
                        self.report.nontrivial += 1;
                        let text = serde_json::to_string(&v).unwrap_or_else(|_| format!("{v:?}"));
                        self.hashes.insert(hash64(&(self.sub, &text)));
                        if want_sample && self.shard == 0 {
                            want_sample = false;
                            let text = if text.len() > 1500 { json!({"sub": self.sub, "case_truncated": text.chars().take(1500).collect::<String>()}) } else { json!({"sub": self.sub, "case": serde_json::to_value(&v).unwrap_or_default()}) };
                            self.report.samples.push(text);
                        }
                    }
                },
                Outcome::Skip(why) => *self.report.skipped.entry(format!("{}/{}", self.sub, why)).or_default() += 1,
                Outcome::Fail { msg, sig } => {
                    if !sig.is_empty() && self.known_sigs.contains(&sig) { *self.report.known.entry(sig).or_default() += 1; continue; }
                    // shrink
                    let original = serde_json::to_value(&v).unwrap_or_default();
                    let (mut best, mut best_msg, mut best_sig, mut steps) = (v, msg, sig, 0u64);
                    if tree.simplify() {
                        for _ in 0..3000 {
                            let v = tree.current();
                            self.beat.step();
                            match guarded(check, &v) {
                                Ok(Outcome::Fail { msg, sig }) if sig.is_empty() || !self.known_sigs.contains(&sig) => {
                                    best = v; best_msg = msg; best_sig = sig; steps += 1;
                                    if !tree.simplify() { break; }
                                },
                                _ => if !tree.complicate() { break; },
                            }
                        }
                    }
                    return Some(Failure { sub: self.sub.to_string(), case: serde_json::to_value(&best).unwrap_or_default(), msg: best_msg, sig: best_sig, shrink_steps: steps, original });
                },
            }
        }
        None
    }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap())
}
pub fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
pub fn base_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1) }

/// (signature, description) of the recorded, unrepaired findings of a property -- "known: property=<id> sig=<signature> <description>"
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    text.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (pid, rest) = l.split_once(' ')?;
        if pid != id { return None; }
        let (sig, desc) = rest.strip_prefix("sig=")?.split_once(' ')?;
        Some((sig.to_string(), desc.to_string()))
    }).collect()
}

pub fn main(props: Vec<Prop>, before_worker: fn()) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no check for {id} here"); std::process::exit(2) });
    match args.get(1).map(String::as_str) {
        Some("check") => parent(find(&args[2])),
        Some("worker") => { before_worker(); worker(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap(), Path::new(&args[5])) },
        Some("replay") => {
            // in a process of its own: it may crash or never end
            match replay_apart(Path::new(&args[2]), 120, true) {
                Apart::Broken(how) => { if !how.is_empty() { eprintln!("{how}"); eprintln!("VIOLATION property={} replay={}", json_field(&args[2], "property"), args[2]); } std::process::exit(1) },
                Apart::Held => std::process::exit(0),
                Apart::Error => std::process::exit(2),
            }
        },
        Some("replay-here") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file");
            let p = find(v["property"].as_str().unwrap());
            let sub = p.subs.iter().find(|s| s.name == v["sub"].as_str().unwrap()).expect("sub-check");
            before_worker();
            install_panic_hook();
            match (sub.replay)(&v["case"]) {
                Ok(Outcome::Fail { msg, .. }) => { eprintln!("{msg}"); eprintln!("VIOLATION property={} replay={}", p.id, args[2]); std::process::exit(1) },
                Ok(Outcome::Skip(w)) => { eprintln!("undecided: {w}"); std::process::exit(0) },
                Ok(_) => { eprintln!("the property holds for this case"); std::process::exit(0) },
                Err(e) => { eprintln!("{e}"); std::process::exit(2) },
            }
        },
        Some("list") => { for p in &props { println!("{}", p.id); } std::process::exit(0) },
        _ => { eprintln!("usage: check <property> | replay <file>"); std::process::exit(2) },
    }
}

fn worker(p: &Prop, shard: u64, shards: u64, dir: &Path) -> ! {
    install_panic_hook();
    let known_sigs: Vec<String> = known_findings(p.id).into_iter().map(|x| x.0).collect();
    let mut total = ShardReport::default();
    let mut hashes = HashSet::new();
    let only = std::env::var("VERIF_SUB").ok();
    let mut ctx = ShardCtx { prop: p.id, sub: "", cases: 0, seed: base_seed(), shard, report: ShardReport::default(), hashes: HashSet::new(), sub_index: 0, beat: Beat::create(&dir.join(format!("beat.{shard}"))), known_sigs };
    for (i, sub) in p.subs.iter().enumerate() {
        if only.as_ref().is_some_and(|o| o != sub.name) { continue; }
        let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let cases = ((if thorough() { sub.thorough } else { sub.quick }) as f64 * scale) as u64;
        ctx.sub = sub.name;
        ctx.sub_index = i as u64;
        ctx.cases = cases / shards + if shard < cases % shards { 1 } else { 0 };
        let failure = (sub.work)(&mut ctx);
        if failure.is_some() { ctx.report.failure = failure; break; }
        if ctx.report.harness_error.is_some() { break; }
    }
    std::mem::swap(&mut total, &mut ctx.report);
    std::mem::swap(&mut hashes, &mut ctx.hashes);
    let mut f = std::io::BufWriter::new(std::fs::File::create(dir.join(format!("hashes.{shard}"))).unwrap());
    for h in hashes { f.write_all(&h.to_le_bytes()).unwrap(); }
    f.flush().unwrap();
    std::fs::write(dir.join(format!("report.{shard}")), serde_json::to_vec(&total).unwrap()).unwrap();
    unsafe { libc::_exit(0) }
}

fn json_field(path: &str, field: &str) -> String {
    std::fs::read(path).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()).and_then(|v| v[field].as_str().map(str::to_string)).unwrap_or_default()
}

enum Apart { Held, Broken(String), Error }
/// replays a case in a process of its own, for a limited time
fn replay_apart(file: &Path, limit_s: u64, show: bool) -> Apart {
    let mut command = std::process::Command::new(std::env::current_exe().unwrap());
    command.arg("replay-here").arg(file).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
    if !show { command.stderr(std::process::Stdio::null()); }
    let mut child = command.spawn().unwrap();
    let start = SystemTime::now();
    loop {
        match child.try_wait().unwrap() {
            Some(s) => return match (s.code(), s.signal()) {
                (Some(0), _) => Apart::Held,
                (Some(1), _) => Apart::Broken(String::new()),
                (None, Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE)) => Apart::Broken(format!("the process crashed ({s})")),
                _ => Apart::Error,
            },
            None if start.elapsed().unwrap_or_default().as_secs() >= limit_s => { _ = child.kill(); _ = child.wait(); return Apart::Broken(format!("no end within {limit_s} s")); },
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

/// the case a worker crashed or got stuck at, made smaller -- `None` if it can't be told
fn investigate(p: &Prop, dir: &Path, shard: u64, crashed: bool, how: &str) -> Option<Failure> {
    let (sub, case_no, _) = Beat::read(&dir.join(format!("beat.{shard}")))?;
    let sub = p.subs.get(sub as usize)?;
    let file = |i: u32| dir.join(format!("case.{shard}.{i}"));
    let store = |v: &Value, i: u32| std::fs::write(file(i), serde_json::to_vec(&json!({"property": p.id, "sub": sub.name, "case": v})).unwrap()).unwrap();
    let mut confirmed = None;
    let (original, best, steps) = (sub.locate)((base_seed(), p.id, sub.name, shard), case_no, &mut |v| {
        if confirmed.is_none() {
            // the original: several times, as it may depend on the threads
            confirmed = Some(std::thread::scope(|s| (0..6).map(|i| { store(v, i); let f = file(i); s.spawn(move || matches!(replay_apart(&f, 60, false), Apart::Broken(_))) }).collect::<Vec<_>>().into_iter().any(|h| h.join().unwrap())));
            return confirmed == Some(true);
        }
        store(v, 0);
        matches!(replay_apart(&file(0), 5, false), Apart::Broken(_))
    })?;
    if confirmed != Some(true) {
        if !crashed { return None; }
        return Some(Failure { sub: sub.name.to_string(), case: original.clone(), original, sig: String::new(), shrink_steps: 0, msg: format!("{how} (it doesn't when it's run alone)") });
    }
    store(&best, 0);
    let best = if matches!(replay_apart(&file(0), 60, false), Apart::Broken(_)) { best } else { original.clone() };
    Some(Failure { sub: sub.name.to_string(), case: best, original, sig: String::new(), shrink_steps: steps, msg: how.to_string() })
}

fn parent(p: &Prop) -> ! {
    let started = SystemTime::now();
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let shards: u64 = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit = Duration::from_secs(std::env::var("VERIF_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 4 * 3600 } else { 700 }));
    let exe = std::env::current_exe().unwrap();
    let mut children: Vec<(u64, std::process::Child)> = (0..shards).map(|shard| {
        let err = std::fs::File::create(dir.join(format!("stderr.{shard}"))).unwrap();
        (shard, std::process::Command::new(&exe).args(["worker", p.id, &shard.to_string(), &shards.to_string()]).arg(&dir)
            .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(err).spawn().unwrap())
    }).collect();
    let stuck_after = Duration::from_secs(std::env::var("VERIF_STUCK").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 600 } else { 100 }));
    let mut statuses = vec![];
    let mut timed_out = false;
    let mut stuck: HashSet<u64> = HashSet::new();
    let mut progress: BTreeMap<u64, ((u64, u64, u64), SystemTime)> = BTreeMap::new();
    let mut rounds = 0u64;
    while !children.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        rounds += 1;
        children.retain_mut(|(shard, child)| {
            if let Some(status) = child.try_wait().unwrap() { statuses.push((*shard, status)); return false; }
            if rounds % 50 == 0 {
                if let Some(at) = Beat::read(&dir.join(format!("beat.{shard}"))) {
                    let known = progress.entry(*shard).or_insert((at, SystemTime::now()));
                    if known.0 != at { *known = (at, SystemTime::now()); }
                    if known.1.elapsed().unwrap_or_default() > stuck_after { stuck.insert(*shard); }
                }
            }
            let late = started.elapsed().unwrap_or_default() > limit;
            if !late && !stuck.contains(shard) { return true; }
            timed_out |= late;
            _ = child.kill();
            statuses.push((*shard, child.wait().unwrap()));
            false
        });
    }

    let mut total = ShardReport::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut failures: Vec<Failure> = vec![];
    let mut errors: Vec<String> = vec![];
    // (what was told by workers comes first)
    statuses.sort_by_key(|(_, s)| !s.success());
    for (shard, status) in statuses {
        let report = std::fs::read(dir.join(format!("report.{shard}"))).ok().and_then(|b| serde_json::from_slice::<ShardReport>(&b).ok());
        if let (Some(r), true) = (report, status.success()) {
            total.evaluations += r.evaluations;
            total.nontrivial += r.nontrivial;
            for (k, v) in r.classes { *total.classes.entry(k).or_default() += v; }
            for (k, v) in r.skipped { *total.skipped.entry(k).or_default() += v; }
            for (k, v) in r.known { *total.known.entry(k).or_default() += v; }
            total.samples.extend(r.samples);
            if let Some(e) = r.harness_error { errors.push(e); }
            if let Some(f) = r.failure { failures.push(f); }
            for h in std::fs::read(dir.join(format!("hashes.{shard}"))).unwrap_or_default().chunks_exact(8) { hashes.insert(u64::from_le_bytes(h.try_into().unwrap())); }
        } else {
            let stderr = std::fs::read_to_string(dir.join(format!("stderr.{shard}"))).unwrap_or_default();
            let (crashed, refused) = (matches!(status.signal(), Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE)), stderr.contains("memory allocation of"));
            let how = if stuck.contains(&shard) { format!("no end within {} s", stuck_after.as_secs()) } else { format!("the process crashed ({status}) while running this case: {}", stderr.chars().take(400).collect::<String>()) };
            // (a single one is enough)
            let found = if (crashed || stuck.contains(&shard)) && failures.is_empty() { investigate(p, &dir, shard, crashed && !refused, &how) } else { None };
            match found {
                Some(f) => failures.push(f),
                None => errors.push(format!("shard {shard} ended with {status}{}: {}", if timed_out {" (time limit)"} else if stuck.contains(&shard) {" (stuck)"} else {""}, stderr.chars().take(2000).collect::<String>())),
            }
        }
    }
    _ = std::fs::remove_dir_all(&dir);

    for (sig, desc) in known_findings(p.id) {
        println!("KNOWN-FINDING: property={} {desc} (seen {} times in this run)", p.id, total.known.get(&sig).copied().unwrap_or(0));
    }
    let wall = started.elapsed().unwrap_or_default().as_secs_f64();
    write_evidence(p.id, p.rule, &p.assumptions, total.evaluations, hashes.len() as u64, total.samples, wall, failures.len() as u64,
                   json!({"classes": total.classes, "skipped": total.skipped, "nontrivial_evaluations": total.nontrivial, "shards": shards, "errors": errors}));
    failures.sort_by_key(|f| f.case.to_string().len());
    if let Some(f) = failures.first() {
        report_violation(p.id, f);
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in errors { eprintln!("ERROR: {e}"); }
        std::process::exit(2);
    }
    println!("{}: held on {} cases ({} distinct non-trivial) in {wall:.1}s", p.id, total.evaluations, hashes.len());
    std::process::exit(0);
}

pub fn write_evidence(id: &str, rule: &str, assumptions: &[&str], evaluations: u64, distinct_nontrivial: u64, samples: Vec<Value>, wall: f64, violations: u64, extra: Value) {
    let mut coverage = json!({"evaluations": evaluations, "distinct_nontrivial": distinct_nontrivial, "rule": rule, "samples": samples});
    for (k, v) in extra.as_object().unwrap() { coverage[k] = v.clone(); }
    let file = verif_dir().join("evidence").join(format!("{id}.json"));
    let (mut wall, mut violations) = (wall, violations);
    // the second part of a check is added to the first one
    if std::env::var_os("VERIF_SECOND").is_some() {
        if let Some(first) = std::fs::read(&file).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
            merge(&mut coverage, &first["coverage"]);
            wall += first["wall_s"].as_f64().unwrap_or(0.0);
            violations += first["violations"].as_u64().unwrap_or(0);
        }
    }
    let ev = json!({
        "property": id, "tier": if thorough() { "thorough" } else { "quick" }, "seed": base_seed() as i64, "level": "exploration",
        "coverage": coverage, "assumptions": assumptions, "wall_s": wall, "violations": violations,
    });
    _ = std::fs::create_dir_all(file.parent().unwrap());
    std::fs::write(file, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
}
fn merge(to: &mut Value, from: &Value) {
    match (to, from) {
        (Value::Object(to), Value::Object(from)) => for (k, v) in from { merge(to.entry(k.clone()).or_insert(Value::Null), v); },
        (Value::Array(to), Value::Array(from)) => to.extend(from.iter().cloned()),
        (to @ Value::Null, from) => *to = from.clone(),
        (to @ Value::Number(_), Value::Number(n)) => *to = json!(to.as_u64().unwrap_or(0) + n.as_u64().unwrap_or(0)),
        _ => (),
    }
}

pub fn report_violation(id: &str, f: &Failure) {
    let dir = verif_dir().join("replays");
    _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:08x}.json", hash64(&f.case.to_string()) as u32));
    let v = json!({"property": id, "sub": f.sub, "case": f.case, "message": f.msg, "signature": f.sig, "shrink_steps": f.shrink_steps, "original_case": f.original, "seed": base_seed()});
    std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    println!("{}: {}", f.sub, f.msg.chars().take(3000).collect::<String>());
    println!("VIOLATION property={id} replay={}", path.display());
}
