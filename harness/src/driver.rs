//! Generic runner: shards, seeding, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    /// The number of cases of this tier.
    pub fn pick(self, quick: u32, thorough: u32) -> u32 {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub scratch: PathBuf,
    nontrivial: bool,
    classes: Vec<&'static str>,
    /// Things counted besides cases (events, bytes, runs ...).
    counts: Vec<(&'static str, u64)>,
    known: Vec<&'static str>,
    serial: u64,
}

/// The signatures listed for this property in known_findings.txt.
fn listed(id: &str) -> Vec<(String, String)> {
    let f = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let pre = format!("finding: property={id} signature=");
    f.lines()
        .filter_map(|l| l.strip_prefix(&pre[..]))
        .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

impl Ctx {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn class(&mut self, name: &'static str) {
        if !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }
    pub fn class_if(&mut self, b: bool, name: &'static str) {
        if b {
            self.class(name)
        }
    }
    /// A failure with the exact signature `sig`: passes only if it is a listed known finding.
    pub fn known(&mut self, id: &str, sig: &'static str, msg: String) -> Result<(), String> {
        if listed(id).iter().any(|(s, _)| s == sig) {
            self.known.push(sig);
            Ok(())
        } else {
            Err(msg)
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        self.counts.push((name, n));
    }
    /// A fresh empty directory for one case. It is removed by the returned guard.
    pub fn dir(&mut self) -> CaseDir {
        self.serial += 1;
        let d = self.scratch.join(format!("c{}", self.serial));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("harness: cannot make scratch dir");
        CaseDir(d)
    }
}

pub struct CaseDir(pub PathBuf);
impl Drop for CaseDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub trait Prop: 'static {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + 'static;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    const LEVEL: &'static str = "exploration";
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// (quick, thorough) number of generated cases over all shards.
    fn cases(tier: Tier) -> u32;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Boundary cases which are always run.
    fn fixed(_tier: Tier) -> Vec<Self::Case> {
        Vec::new()
    }
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Result<(), String>;
    fn threads() -> usize {
        SHARDS
    }
    /// Surroundings that a real process has one of, but of which the generated cases have many. If
    /// there are any, a failing case must also fail in a process of its own; if it does not, the
    /// search is repeated with one process for each of these (VH_CONTEXT).
    fn contexts() -> Vec<String> {
        Vec::new()
    }
}

/// The only surroundings that this process has to deal with.
pub fn context() -> Option<String> {
    std::env::var("VH_CONTEXT").ok()
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub message: String,
    pub case: serde_json::Value,
}

#[derive(Serialize, Deserialize, Default)]
struct Stats {
    evaluations: u64,
    fixed: u64,
    nontrivial_evaluations: u64,
    distinct_nontrivial: u64,
    classes: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

#[derive(Serialize, Deserialize)]
struct WorkerOut {
    stats: Stats,
    failure: Option<(String, serde_json::Value)>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs code under test which may legitimately panic (refusal).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| p.borrow_mut().take());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

/// Marks a failure of the harness itself (missing tool, scratch error), which must not be
/// reported as a violation.
pub fn harness_error(msg: &str) -> ! {
    if std::env::var_os("VH_OUT").is_some() {
        let p = std::env::var("VH_OUT").unwrap();
        let _ = std::fs::write(format!("{p}.err"), msg);
    } else {
        eprintln!("HARNESS-ERROR: {msg}");
    }
    std::process::exit(3);
}

fn run_one<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Result<(), String> {
    ctx.nontrivial = false;
    ctx.classes.clear();
    ctx.counts.clear();
    ctx.known.clear();
    LAST_PANIC.with(|p| p.borrow_mut().take());
    match catch_unwind(AssertUnwindSafe(|| P::check(case, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            if m.contains("harness:") {
                harness_error(&m);
            }
            Err(format!("panicked: {m}"))
        }
    }
}

fn mix(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed ^ 0x9E37_79B9_7F4A_7C15;
    for b in id.bytes().chain(shard.to_le_bytes()) {
        x = (x ^ b as u64).wrapping_mul(0x100_0000_01B3).rotate_left(23) ^ 0xA5A5;
    }
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn hash_json(v: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// What a shard is doing, for the watchdog.
#[derive(Default)]
struct Slot {
    case: Vec<u8>,
    since: Option<Instant>,
    /// When a case was last begun or ended.
    moved: Option<Instant>,
    finished: bool,
}

/// How long one case may take.
fn case_limit(tier: Tier) -> Duration {
    let s = std::env::var("VH_CASE_LIMIT").ok().and_then(|s| s.parse().ok());
    Duration::from_secs(s.unwrap_or(match tier {
        Tier::Quick => 150,
        Tier::Thorough => 900,
    }))
}

/// Ends the process (code 5) when a case does not end, and leaves the case behind.
fn watchdog(tier: Tier, slots: Arc<Vec<Mutex<Slot>>>, out: PathBuf) {
    let limit = case_limit(tier);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        for (i, s) in slots.iter().enumerate() {
            let s = s.lock().unwrap();
            if !s.since.is_some_and(|t| t.elapsed() > limit) {
                continue;
            }
            // If nothing else moves either, the machine may be what is stuck.
            let others = slots.iter().enumerate().filter(|(j, _)| *j != i).all(|(_, o)| {
                let o = o.lock().unwrap();
                o.finished || o.moved.is_some_and(|t| t.elapsed() < limit / 4)
            });
            let _ = std::fs::write(out.with_extension("hang-alone"), if others { "1" } else { "0" });
            let _ = std::fs::write(out.with_extension("hang"), &s.case);
            unsafe { libc::_exit(5) }
        }
    });
}

/// Keeps a case that allocates without end from taking the machine down.
pub fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

struct ShardState {
    ctx: Ctx,
    slots: Arc<Vec<Mutex<Slot>>>,
    shard: usize,
    stats: Stats,
    seen: HashSet<u64>,
    failed: bool,
    journal: Option<PathBuf>,
}

impl ShardState {
    fn run<P: Prop>(&mut self, case: &P::Case) -> Result<(), String> {
        let bytes = serde_json::to_vec(case).expect("harness: case serialises");
        if let Some(j) = &self.journal {
            std::fs::write(j, &bytes).expect("harness: journal");
        }
        {
            let now = Some(Instant::now());
            *self.slots[self.shard].lock().unwrap() = Slot { case: bytes.clone(), since: now, moved: now, finished: false };
        }
        let r = run_one::<P>(case, &mut self.ctx);
        {
            let mut s = self.slots[self.shard].lock().unwrap();
            s.since = None;
            s.moved = Some(Instant::now());
        }
        if !self.failed {
            self.stats.evaluations += 1;
            for c in &self.ctx.classes {
                *self.stats.classes.entry(c.to_string()).or_default() += 1;
            }
            for (c, n) in &self.ctx.counts {
                *self.stats.counts.entry(c.to_string()).or_default() += n;
            }
            for c in &self.ctx.known {
                *self.stats.known.entry(c.to_string()).or_default() += 1;
            }
            if self.ctx.nontrivial {
                self.stats.nontrivial_evaluations += 1;
                if self.seen.insert(hash_json(&bytes)) && self.stats.samples.len() < 3 {
                    let mut s = String::from_utf8_lossy(&bytes).into_owned();
                    if s.len() > 700 {
                        let mut n = 700;
                        while !s.is_char_boundary(n) {
                            n -= 1;
                        }
                        s.truncate(n);
                        s.push_str(" ...(cut)");
                    }
                    self.stats.samples.push(serde_json::Value::String(s));
                }
            }
        }
        if r.is_err() {
            self.failed = true;
        }
        if let Some(j) = &self.journal {
            let _ = std::fs::remove_file(j);
        }
        r
    }
}

pub fn scratch_root() -> PathBuf {
    match std::env::var_os("VH_SCRATCH") {
        Some(s) => PathBuf::from(s),
        None => std::env::temp_dir().join(format!("vh-{}", std::process::id())),
    }
}

/// The process which generates and runs the cases.
pub fn worker<P: Prop>(tier: Tier, seed: u64, out: &Path, journal: bool) {
    install_panic_hook();
    let abort = Arc::new(AtomicBool::new(false));
    let results: Arc<Mutex<Vec<(usize, Stats, HashSet<u64>, Option<(String, serde_json::Value)>)>>> =
        Arc::default();
    let fixed: Vec<P::Case> = P::fixed(tier);
    let shards = P::threads();
    let total = std::env::var("VH_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(P::cases(tier));
    let mut handles = Vec::new();
    let slots: Arc<Vec<Mutex<Slot>>> = Arc::new((0..shards).map(|_| Mutex::default()).collect());
    watchdog(tier, slots.clone(), out.to_owned());
    for shard in 0..shards {
        let slots = slots.clone();
        let abort = abort.clone();
        let results = results.clone();
        let mine: Vec<P::Case> = fixed
            .iter()
            .enumerate()
            .filter(|(i, _)| i % shards == shard)
            .map(|(_, c)| c.clone())
            .collect();
        let scratch = scratch_root().join(format!("s{shard}"));
        let out = out.to_owned();
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    std::fs::create_dir_all(&scratch).expect("harness: scratch");
                    let st = RefCell::new(ShardState {
                        ctx: Ctx {
                            tier,
                            scratch: scratch.clone(),
                            nontrivial: false,
                            classes: vec![],
                            counts: vec![],
                            known: vec![],
                            serial: 0,
                        },
                        slots: slots.clone(),
                        shard,
                        stats: Stats::default(),
                        seen: HashSet::new(),
                        failed: false,
                        journal: journal
                            .then(|| out.with_extension(format!("journal{shard}"))),
                    });
                    let mut failure = None;
                    for c in &mine {
                        if abort.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut s = st.borrow_mut();
                        s.stats.fixed += 1;
                        if let Err(m) = s.run::<P>(c) {
                            abort.store(true, Ordering::Relaxed);
                            failure = Some((m, serde_json::to_value(c).unwrap()));
                            break;
                        }
                    }
                    let n = total / shards as u32 + u32::from((shard as u32) < total % shards as u32);
                    if failure.is_none() && n > 0 {
                        let config = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 60_000,
                            max_global_rejects: n.saturating_mul(20).max(1000),
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(
                            config,
                            TestRng::from_seed(
                                RngAlgorithm::ChaCha,
                                &mix(seed, P::ID, shard as u64),
                            ),
                        );
                        let r = runner.run(&P::strategy(tier), |case| {
                            let mut s = st.borrow_mut();
                            if !s.failed && abort.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            match s.run::<P>(&case) {
                                Ok(()) => Ok(()),
                                Err(m) => {
                                    abort.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        match r {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                // The message belongs to the shrunk case.
                                let m = st
                                    .borrow_mut()
                                    .run::<P>(&case)
                                    .err()
                                    .unwrap_or_else(|| reason.message().to_string());
                                failure = Some((m, serde_json::to_value(&case).unwrap()));
                            }
                            Err(TestError::Abort(reason)) => {
                                harness_error(&format!("generator gave up: {}", reason.message()))
                            }
                        }
                    }
                    slots[shard].lock().unwrap().finished = true;
                    let st = st.into_inner();
                    let _ = std::fs::remove_dir_all(&scratch);
                    results.lock().unwrap().push((shard, st.stats, st.seen, failure));
                })
                .expect("harness: thread"),
        );
    }
    for h in handles {
        if h.join().is_err() {
            harness_error("a shard died");
        }
    }
    let mut results = std::mem::take(&mut *results.lock().unwrap());
    results.sort_by_key(|r| r.0);
    let mut stats = Stats::default();
    let mut seen = HashSet::new();
    let mut failure = None;
    for (_, s, h, f) in results {
        stats.evaluations += s.evaluations;
        stats.fixed += s.fixed;
        stats.nontrivial_evaluations += s.nontrivial_evaluations;
        for (k, v) in s.classes {
            *stats.classes.entry(k).or_default() += v;
        }
        for (k, v) in s.counts {
            *stats.counts.entry(k).or_default() += v;
        }
        for (k, v) in s.known {
            *stats.known.entry(k).or_default() += v;
        }
        for x in s.samples {
            if stats.samples.len() < 4 {
                stats.samples.push(x);
            }
        }
        seen.extend(h);
        if failure.is_none() {
            failure = f;
        }
    }
    stats.distinct_nontrivial = seen.len() as u64;
    std::fs::write(out, serde_json::to_vec(&WorkerOut { stats, failure }).unwrap())
        .expect("harness: result file");
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_DIR").unwrap_or_else(|| "/verif".into()))
}

/// `vh check ID`: starts the worker process and reports.
pub fn check<P: Prop>(tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let root = std::env::temp_dir().join(format!("vh-{}-{}", P::ID, std::process::id()));
    std::fs::create_dir_all(&root).unwrap();
    let r = check_in::<P>(tier, seed, &root, t0);
    let _ = std::fs::remove_dir_all(&root);
    r
}

fn spawn_worker(id: &str, tier: Tier, seed: u64, root: &Path, journal: bool) -> (std::process::ExitStatus, PathBuf) {
    let out = root.join("out.json");
    let _ = std::fs::remove_file(&out);
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["worker", id])
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(seed.to_string())
        .arg(if journal { "journal" } else { "-" })
        .env("VH_OUT", &out)
        .env("VH_SCRATCH", root.join("scratch"))
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(if std::env::var_os("VH_STDERR").is_some() {
            std::process::Stdio::inherit()
        } else {
            std::process::Stdio::null()
        })
        .status()
        .expect("cannot start worker");
    (st, out)
}

/// Runs one case in a process of its own; None if it does not end in time.
fn replay_alone(id: &str, f: &Path, root: &Path, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["replay-inner", id])
        .arg(f)
        .env("VH_SCRATCH", root.join("scratch"))
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    let mut ended = None;
    while ended.is_none() && t.elapsed() < limit {
        std::thread::sleep(Duration::from_millis(100));
        ended = child.try_wait().unwrap();
    }
    let _ = child.kill();
    let _ = child.wait();
    ended
}

fn check_in<P: Prop>(tier: Tier, seed: u64, root: &Path, t0: Instant) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let (st, out) = spawn_worker(P::ID, tier, seed, root, false);
    let mut failure: Option<(String, serde_json::Value)> = None;
    let mut stats = Stats::default();
    if st.code() == Some(0) {
        let w: WorkerOut = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
        failure = w.failure;
        stats = w.stats;
        if let (Some((message, case)), false) = (&failure, P::contexts().is_empty()) {
            let f = root.join("cand.json");
            let rep = Replay { property: P::ID.into(), message: message.clone(), case: case.clone() };
            std::fs::write(&f, serde_json::to_vec(&rep).unwrap()).unwrap();
            if replay_alone(P::ID, &f, root, case_limit(tier)).is_some_and(|e| e.code() == Some(0)) {
                eprintln!("a failure depends on earlier cases in other surroundings: searching again, one process each");
                failure = None;
                for c in P::contexts() {
                    std::env::set_var("VH_CONTEXT", &c);
                    let (st, out) = spawn_worker(P::ID, tier, seed, root, false);
                    if st.code() != Some(0) {
                        eprintln!("HARNESS-ERROR: worker for {c} ended with {st:?}");
                        return 3;
                    }
                    let w: WorkerOut = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                    stats = w.stats;
                    if w.failure.is_some() {
                        failure = w.failure;
                        break;
                    }
                }
            }
        }
    } else if matches!(st.signal(), Some(libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL)) {
        // The code under test took the process down: find the case in a journalled run, and
        // believe it only if that case alone does it again.
        let sig = st.signal().unwrap();
        let _ = spawn_worker(P::ID, tier, seed, root, true);
        for shard in 0..P::threads() {
            let j = out.with_extension(format!("journal{shard}"));
            let Ok(bytes) = std::fs::read(&j) else { continue };
            let Ok(case) = serde_json::from_slice::<serde_json::Value>(&bytes) else { continue };
            let f = root.join(format!("cand{shard}.json"));
            let rep = Replay { property: P::ID.into(), message: "crash".into(), case: case.clone() };
            std::fs::write(&f, serde_json::to_vec(&rep).unwrap()).unwrap();
            match replay_alone(P::ID, &f, root, case_limit(tier)) {
                Some(st) => match st.signal() {
                    Some(s @ (libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL)) => {
                        failure = Some((format!("the process dies with signal {s}"), case));
                        break;
                    }
                    _ => {}
                },
                None => {
                    failure = Some(("the case does not end, or takes ever more memory".to_string(), case));
                    break;
                }
            }
        }
        if failure.is_none() {
            eprintln!("HARNESS-ERROR: worker died with signal {sig}, not reproducible by one case");
            return 3;
        }
    } else if let (Some(5), Ok(bytes)) = (st.code(), std::fs::read(out.with_extension("hang"))) {
        // A case does not end: believe it if everything else went on meanwhile, or if it alone does
        // not end either.
        let case: serde_json::Value = serde_json::from_slice(&bytes).expect("harness: hung case");
        let f = root.join("cand.json");
        let rep = Replay { property: P::ID.into(), message: "hang".into(), case: case.clone() };
        std::fs::write(&f, serde_json::to_vec(&rep).unwrap()).unwrap();
        let alone = std::fs::read(out.with_extension("hang-alone")).is_ok_and(|b| b == b"1");
        let ended = if alone { None } else { replay_alone(P::ID, &f, root, case_limit(tier)) };
        // what it started
        unsafe {
            libc::signal(libc::SIGTERM, libc::SIG_IGN);
            libc::kill(0, libc::SIGTERM);
        }
        if ended.is_some_and(|e| e.code() != Some(1)) && !alone {
            eprintln!("HARNESS-ERROR: a case took too long, not reproducible by this case alone");
            return 3;
        }
        failure = Some(("the case does not end (not reduced)".to_string(), case));
    } else {
        let m = std::fs::read_to_string(format!("{}.err", out.display())).unwrap_or_default();
        eprintln!("HARNESS-ERROR: worker ended with {st:?}: {m}");
        return 3;
    }

    let vdir = verif_dir();
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": P::LEVEL,
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": stats.distinct_nontrivial,
            "nontrivial_evaluations": stats.nontrivial_evaluations,
            "boundary_cases": stats.fixed,
            "rule": P::RULE,
            "samples": stats.samples,
            "classes": stats.classes,
            "counts": stats.counts,
            "known_findings_met": stats.known,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failure.is_some() as u32,
    });
    let evdir = vdir.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{}.json", P::ID)),
        serde_json::to_vec_pretty(&ev).unwrap(),
    )
    .expect("cannot write evidence");

    for (sig, what) in listed(P::ID) {
        if stats.known.contains_key(&sig) {
            println!("KNOWN-FINDING: property={} {what}", P::ID);
        }
    }
    match failure {
        None => {
            println!(
                "OK property={} cases={} nontrivial={} wall={:.1}s",
                P::ID,
                stats.evaluations,
                stats.distinct_nontrivial,
                t0.elapsed().as_secs_f64()
            );
            0
        }
        Some((m, case)) => {
            let rep = Replay { property: P::ID.into(), message: m.clone(), case };
            let bytes = serde_json::to_vec_pretty(&rep).unwrap();
            let rdir = vdir.join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{}-{:016x}.json", P::ID, hash_json(&bytes)));
            std::fs::write(&path, bytes).expect("cannot write replay");
            let mut m = m;
            if m.len() > 3000 {
                let mut n = 3000;
                while !m.is_char_boundary(n) {
                    n -= 1;
                }
                m.truncate(n);
            }
            println!("{m}");
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            1
        }
    }
}

pub fn replay<P: Prop>(file: &Path) -> i32 {
    install_panic_hook();
    let rep: Replay = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let case: P::Case = serde_json::from_value(rep.case).expect("case does not parse");
    let scratch = scratch_root().join("replay");
    let mut ctx = Ctx {
        tier: Tier::Thorough,
        scratch: scratch.clone(),
        nontrivial: false,
        classes: vec![],
        counts: vec![],
        known: vec![],
        serial: 0,
    };
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || run_one::<P>(&case, &mut ctx))
        .unwrap()
        .join();
    let _ = std::fs::remove_dir_all(&scratch);
    match r {
        Ok(Ok(())) => {
            println!("OK property={} replay passes", P::ID);
            0
        }
        Ok(Err(m)) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", P::ID, file.display());
            1
        }
        Err(_) => 3,
    }
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}
