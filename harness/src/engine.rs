//! Runs properties: parent/worker processes, proptest driving, shrinking, replay files, evidence.
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// The folder of the checks: three levels above the executable (target/debug/vph).
pub fn home() -> String {
    let exe = std::env::current_exe().unwrap();
    exe.ancestors().nth(3).unwrap().to_str().unwrap().to_string()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(&self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// Per-case context: labels, non-triviality, known findings met, scratch directories.
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub known: BTreeMap<String, u64>,
    pub known_ids: BTreeSet<String>,
    pub units: u64,
    scratch: PathBuf,
    dirs: u64,
    made: Vec<PathBuf>,
}

impl Cx {
    pub fn new(scratch: PathBuf, known_ids: BTreeSet<String>) -> Self {
        Cx {
            labels: BTreeMap::new(),
            nontrivial: false,
            known: BTreeMap::new(),
            known_ids,
            units: 0,
            scratch,
            dirs: 0,
            made: vec![],
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_insert(0) += 1;
    }
    pub fn label_n(&mut self, l: impl Into<String>, n: u64) {
        *self.labels.entry(l.into()).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Records that a listed finding showed up. An unlisted one is a violation.
    pub fn known(&mut self, id: &str, what: &str) -> Result<(), String> {
        if self.known_ids.contains(id) {
            *self.known.entry(id.to_string()).or_insert(0) += 1;
            Ok(())
        } else {
            Err(what.to_string())
        }
    }
    /// A fresh directory, removed when the case ends.
    pub fn dir(&mut self) -> PathBuf {
        self.dirs += 1;
        let p = self.scratch.join(format!("c{}", self.dirs));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch dir");
        self.made.push(p.clone());
        p
    }
    pub fn clean(&mut self) {
        for p in self.made.drain(..) {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}

pub trait Property: 'static {
    type Case: Clone + Debug + Serialize + DeserializeOwned + 'static;
    const ID: &'static str;
    fn rule() -> &'static str;
    fn assumptions() -> Vec<&'static str> {
        vec![]
    }
    fn cases(tier: Tier) -> u32;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Err is a violation of the property.
    fn run(case: &Self::Case, cx: &mut Cx) -> Result<(), String>;
    fn max_shrink_iters() -> u32 {
        4000
    }
    fn level() -> &'static str {
        "exploration"
    }
    /// How often a replay of a saved case is repeated (schedule-dependent checks need more than one).
    fn replay_times() -> u32 {
        1
    }
    /// Fixed cases that reproduce the listed findings: (finding id, case).
    fn witnesses() -> Vec<(&'static str, Self::Case)> {
        vec![]
    }
}

pub struct Args {
    pub tier: Tier,
    pub seed: u64,
    pub shard: u32,
    pub of: u32,
    pub out: PathBuf,
    pub isolate_from: Option<u64>,
    pub cases: Option<u32>,
}

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerReport {
    pub evaluations: u64,
    pub nontrivial: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub units: u64,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<(serde_json::Value, String)>,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub message: String,
    pub seed: u64,
    pub case: serde_json::Value,
}

pub trait DynProp {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str>;
    fn replay_times(&self) -> u32;
    fn worker(&self, a: &Args) -> WorkerReport;
    fn run_json(&self, v: &serde_json::Value, cx: &mut Cx) -> Result<(), String>;
    fn witnesses_json(&self) -> Vec<(&'static str, serde_json::Value)>;
}

pub struct W<P>(pub std::marker::PhantomData<P>);

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Where a child process also notes its panics.
pub static PANIC_LOG: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    let verbose = std::env::var_os("VPH_PANICS").is_some();
    std::panic::set_hook(Box::new(move |i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose {
            eprintln!("panic: {msg} at {loc}");
        }
        if let Ok(mut l) = PANIC_LOG.try_lock() {
            if let Some(f) = &mut *l {
                use std::io::Write;
                let _ = writeln!(f, "P {} at {loc}", msg.replace('\n', " "));
            }
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {msg} at {loc}"));
    }));
}

/// Runs library code; a panic becomes Err with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Runs a library operation that returns a Result: Ok(Ok), Ok(Err) or, for a panic, Err(violation text).
pub fn op<T, E: Debug>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Result<Result<T, String>, String> {
    match guard(f) {
        Ok(Ok(v)) => Ok(Ok(v)),
        Ok(Err(e)) => Ok(Err(format!("{e:?}"))),
        Err(p) => Err(format!("{what}: {p}")),
    }
}

/// Runs a library operation that must succeed.
pub fn must<T, E: Debug>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match op(what, f)? {
        Ok(v) => Ok(v),
        Err(e) => Err(format!("{what} failed: {}", e.lines().take(6).collect::<Vec<_>>().join(" | "))),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

pub fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    if shm.is_dir() && std::fs::create_dir_all("/dev/shm/vph").is_ok() {
        return PathBuf::from("/dev/shm/vph");
    }
    let p = std::env::temp_dir().join("vph");
    let _ = std::fs::create_dir_all(&p);
    p
}

pub fn known_ids(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", home())).unwrap_or_default();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=");
            let id = it.next().unwrap_or("").trim_start_matches("id=");
            if p == prop {
                m.insert(id.to_string(), it.next().unwrap_or("").to_string());
            }
        }
    }
    m
}

fn h64(s: &[u8]) -> u64 {
    let d = Sha256::digest(s);
    u64::from_le_bytes(d[..8].try_into().unwrap())
}

fn truncated(v: &serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() > 1200 {
        let mut e = 1200;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes)", &s[..e], s.len()))
    } else {
        v.clone()
    }
}

impl<P: Property> DynProp for W<P> {
    fn id(&self) -> &'static str {
        P::ID
    }
    fn rule(&self) -> &'static str {
        P::rule()
    }
    fn level(&self) -> &'static str {
        P::level()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        P::assumptions()
    }
    fn replay_times(&self) -> u32 {
        P::replay_times()
    }
    fn run_json(&self, v: &serde_json::Value, cx: &mut Cx) -> Result<(), String> {
        let case: P::Case = serde_json::from_value(v.clone()).map_err(|e| format!("BADCASE {e}"))?;
        let r = match guard(|| P::run(&case, cx)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        cx.clean();
        r
    }
    fn witnesses_json(&self) -> Vec<(&'static str, serde_json::Value)> {
        P::witnesses().into_iter().map(|(i, c)| (i, serde_json::to_value(c).unwrap())).collect()
    }
    fn worker(&self, a: &Args) -> WorkerReport {
        let total = a.cases.unwrap_or_else(|| P::cases(a.tier));
        let share = total / a.of + u32::from(a.shard < total % a.of);
        let mut hasher = Sha256::new();
        hasher.update(format!("{}|{}|{}", P::ID, a.seed, a.shard));
        let seed: [u8; 32] = hasher.finalize().into();
        let cfg = Config {
            cases: share,
            failure_persistence: None,
            max_shrink_iters: P::max_shrink_iters(),
            max_shrink_time: 120_000,
            max_global_rejects: u32::MAX,
            max_local_rejects: u32::MAX,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let known: BTreeSet<String> = known_ids(P::ID).into_keys().collect();
        let report = RefCell::new(WorkerReport::default());
        let seen: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        let failing = RefCell::new(false);
        let index = RefCell::new(0u64);
        let last_fail: RefCell<Option<(serde_json::Value, String)>> = RefCell::new(None);
        let cur = a.out.join(format!("cur-{}.json", a.shard));
        let scratch = a.out.join(format!("w{}", a.shard));
        let started = Instant::now();
        if share == 0 {
            return report.into_inner();
        }
        let res = runner.run(&P::strategy(a.tier), |case| {
            let i = {
                let mut b = index.borrow_mut();
                *b += 1;
                *b - 1
            };
            let js = serde_json::to_value(&case).unwrap();
            if let Some(from) = a.isolate_from {
                if i < from {
                    return Ok(());
                }
                if started.elapsed() > Duration::from_secs(150) {
                    return Ok(()); // stop shrinking
                }
                return match isolated(P::ID, &js, &a.out, a.shard) {
                    Ok(()) => Ok(()),
                    Err(m) => {
                        *last_fail.borrow_mut() = Some((js, m.clone()));
                        Err(TestCaseError::fail(m))
                    }
                };
            }
            let text = js.to_string();
            let _ = std::fs::write(&cur, format!("{i}\n{text}"));
            let mut cx = Cx::new(scratch.clone(), known.clone());
            let r = match guard(|| P::run(&case, &mut cx)) {
                Ok(r) => r,
                Err(p) => Err(p),
            };
            cx.clean();
            match r {
                Ok(()) => {
                    if !*failing.borrow() {
                        let mut rep = report.borrow_mut();
                        rep.evaluations += 1;
                        rep.units += cx.units;
                        for (k, v) in &cx.labels {
                            *rep.labels.entry(k.clone()).or_insert(0) += v;
                        }
                        for (k, v) in &cx.known {
                            *rep.known.entry(k.clone()).or_insert(0) += v;
                        }
                        if cx.nontrivial {
                            let h = h64(text.as_bytes());
                            if seen.borrow_mut().insert(h) {
                                rep.nontrivial.push(h);
                                if rep.samples.len() < 2 || (rep.samples.len() < 3 && i as u32 > share / 2) {
                                    rep.samples.push(truncated(&js));
                                }
                            }
                        }
                    }
                    Ok(())
                }
                Err(m) if m.starts_with("HARNESS") => {
                    eprintln!("{m}");
                    std::process::exit(3);
                }
                Err(m) => {
                    *failing.borrow_mut() = true;
                    *last_fail.borrow_mut() = Some((js, m.clone()));
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let _ = std::fs::remove_dir_all(&scratch);
        let mut rep = report.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                rep.failure = Some((serde_json::to_value(&case).unwrap(), reason.message().to_string()));
                if rep.failure.as_ref().unwrap().1.is_empty() {
                    rep.failure = last_fail.into_inner();
                }
            }
            Err(TestError::Abort(r)) => {
                eprintln!("worker aborted: {r}");
                std::process::exit(3);
            }
        }
        rep
    }
}

/// Runs one case in a process of its own. Err: it violates the property or kills the process.
fn isolated(id: &str, js: &serde_json::Value, out: &Path, shard: u32) -> Result<(), String> {
    let f = out.join(format!("iso-{shard}.json"));
    std::fs::write(&f, serde_json::to_string(&Replay { property: id.into(), message: String::new(), seed: 0, case: js.clone() }).unwrap()).unwrap();
    match replay_process(id, &f) {
        ReplayOutcome::Holds => Ok(()),
        ReplayOutcome::Violated(m) => Err(m),
        ReplayOutcome::Broken(m) => {
            eprintln!("isolated run unusable: {m}");
            Ok(())
        }
    }
}

pub enum ReplayOutcome {
    Holds,
    Violated(String),
    Broken(String),
}

pub fn replay_process(id: &str, file: &Path) -> ReplayOutcome {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut child = match Command::new(exe).arg("case").arg(id).arg(file).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return ReplayOutcome::Broken(e.to_string()),
    };
    let t = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if t.elapsed() > Duration::from_secs(120) {
                    let _ = child.kill();
                    let _ = child.wait();
                    return ReplayOutcome::Broken("timeout".into());
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(e) => return ReplayOutcome::Broken(e.to_string()),
        }
    };
    let mut text = String::new();
    use std::io::Read;
    let _ = child.stdout.take().unwrap().read_to_string(&mut text);
    if let Some(sig) = status.signal() {
        return if sig == libc::SIGKILL { ReplayOutcome::Broken("killed".into()) } else { ReplayOutcome::Violated(format!("the process died with signal {sig}")) };
    }
    match status.code() {
        Some(0) => ReplayOutcome::Holds,
        Some(1) => ReplayOutcome::Violated(text.trim().to_string()),
        c => ReplayOutcome::Broken(format!("exit {c:?}: {text}")),
    }
}

/// `vph case ID FILE`: judge one saved case in this process.
pub fn run_case(p: &dyn DynProp, file: &Path) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {e}", file.display());
            return 2;
        }
    };
    let rep: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            println!("bad replay file: {e}");
            return 2;
        }
    };
    let known: BTreeSet<String> = known_ids(p.id()).into_keys().collect();
    let scratch = scratch_root().join(format!("case-{}", std::process::id()));
    let mut code = 0;
    for _ in 0..p.replay_times() {
        let mut cx = Cx::new(scratch.clone(), known.clone());
        match p.run_json(&rep.case, &mut cx) {
            Ok(()) => {}
            Err(m) if m.starts_with("BADCASE") || m.starts_with("HARNESS") => {
                println!("{m}");
                code = 2;
                break;
            }
            Err(m) => {
                println!("{m}");
                code = 1;
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn write_replay(id: &str, name: &str, seed: u64, case: &serde_json::Value, message: &str) -> String {
    let dir = format!("{}/replays/{id}", home());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{name}.json");
    let r = Replay { property: id.into(), message: message.into(), seed, case: case.clone() };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
    path
}

pub fn sanitize(m: &str) -> String {
    let mut s: String = m.lines().take(4).collect::<Vec<_>>().join(" / ");
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
    }
    s
}

/// The parent: regressions, witnesses, workers, evidence, verdict.
pub fn parent(p: &dyn DynProp, tier: Tier, seed: u64, cases: Option<u32>) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let out = scratch_root().join(format!("run-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).expect("scratch");
    let code = parent_in(p, tier, seed, cases, &out, t0);
    let _ = std::fs::remove_dir_all(&out);
    code
}

fn parent_in(p: &dyn DynProp, tier: Tier, seed: u64, cases: Option<u32>, out: &Path, t0: Instant) -> i32 {
    let id = p.id();
    let mut violations: Vec<(String, String)> = vec![]; // (replay path, message)

    // 1. saved cases
    let mut regressions = 0u64;
    let rdir = PathBuf::from(format!("{}/regressions/{id}", home()));
    if let Ok(rd) = std::fs::read_dir(&rdir) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect();
        files.sort();
        for f in files {
            regressions += 1;
            match replay_process(id, &f) {
                ReplayOutcome::Holds => {}
                ReplayOutcome::Violated(m) => violations.push((f.display().to_string(), m)),
                ReplayOutcome::Broken(m) => {
                    eprintln!("ERROR {id}: saved case {} unusable: {m}", f.display());
                    return 2;
                }
            }
        }
    }

    // 2. listed findings
    let listed = known_ids(id);
    let mut confirmed: BTreeMap<String, bool> = BTreeMap::new();
    for (k, case) in p.witnesses_json() {
        let desc = listed.get(k).cloned().unwrap_or_default();
        let mut cx = Cx::new(out.join("wit"), listed.keys().cloned().collect());
        let r = p.run_json(&case, &mut cx);
        match r {
            Ok(()) => {
                let hit = cx.known.contains_key(k);
                if hit && !confirmed.get(k).copied().unwrap_or(false) {
                    println!("KNOWN-FINDING: property={id} {k} {desc}");
                    confirmed.insert(k.to_string(), true);
                } else {
                    confirmed.entry(k.to_string()).or_insert(hit);
                }
            }
            Err(m) => {
                let path = write_replay(id, &format!("witness-{k}"), seed, &case, &m);
                violations.push((path, m));
            }
        }
    }

    // 3. generated cases
    let shards = std::thread::available_parallelism().map(|n| n.get() as u32).unwrap_or(8).clamp(1, 8);
    let shards = 8u32.max(shards.min(8));
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for s in 0..shards {
        let mut c = Command::new(&exe);
        c.arg("worker").arg(id).arg(tier.name()).arg(seed.to_string()).arg(s.to_string()).arg(shards.to_string()).arg(out);
        if let Some(n) = cases {
            c.env("VPH_CASES", n.to_string());
        }
        c.stdout(Stdio::null());
        kids.push((s, c.spawn().expect("spawn worker")));
    }
    let limit = Duration::from_secs(std::env::var("VPH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(800, 6 * 3600)));
    let mut agg = WorkerReport::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut broken: Option<String> = None;
    let mut statuses = vec![];
    let mut pending = kids;
    while !pending.is_empty() {
        let mut rest = vec![];
        for (s, mut k) in pending {
            match k.try_wait() {
                Ok(Some(st)) => statuses.push((s, st)),
                Ok(None) => {
                    if t0.elapsed() > limit {
                        let _ = k.kill();
                        let _ = k.wait();
                        broken = Some(format!("worker {s} exceeded {limit:?}"));
                    } else {
                        rest.push((s, k));
                    }
                }
                Err(e) => broken = Some(e.to_string()),
            }
        }
        pending = rest;
        std::thread::sleep(Duration::from_millis(10));
    }
    statuses.sort_by_key(|x| x.0);
    for (s, st) in statuses {
        use std::os::unix::process::ExitStatusExt;
        if let Some(sig) = st.signal() {
            // the case in flight took the process down
            let cur = std::fs::read_to_string(out.join(format!("cur-{s}.json"))).unwrap_or_default();
            let (idx, js) = cur.split_once('\n').unwrap_or(("0", "null"));
            let case: serde_json::Value = serde_json::from_str(js).unwrap_or_default();
            if sig == libc::SIGKILL {
                broken = Some(format!("worker {s} was killed (memory?)"));
                continue;
            }
            let path = write_replay(id, &format!("abort-seed{seed}-shard{s}"), seed, &case, &format!("process died with signal {sig}"));
            match replay_process(id, Path::new(&path)) {
                ReplayOutcome::Violated(m) => {
                    // shrink with every candidate in its own process
                    let st = Command::new(&exe)
                        .arg("worker").arg(id).arg(tier.name()).arg(seed.to_string()).arg(s.to_string()).arg(shards.to_string()).arg(out)
                        .env("VPH_ISOLATE", idx)
                        .envs(cases.map(|n| ("VPH_CASES", n.to_string())))
                        .status();
                    let mut done = false;
                    if st.map(|x| x.success()).unwrap_or(false) {
                        if let Ok(t) = std::fs::read_to_string(out.join(format!("rep-{s}.json"))) {
                            if let Ok(r) = serde_json::from_str::<WorkerReport>(&t) {
                                if let Some((c, m)) = r.failure {
                                    let path = write_replay(id, &format!("seed{seed}-shard{s}"), seed, &c, &m);
                                    violations.push((path, m));
                                    done = true;
                                }
                            }
                        }
                    }
                    if !done {
                        violations.push((path, m));
                    }
                }
                _ => broken = Some(format!("worker {s} died with signal {sig}, not reproducible from {path}")),
            }
            continue;
        }
        if !st.success() {
            broken = Some(format!("worker {s} exited with {st}"));
            continue;
        }
        let text = std::fs::read_to_string(out.join(format!("rep-{s}.json"))).unwrap_or_default();
        let rep: WorkerReport = match serde_json::from_str(&text) {
            Ok(r) => r,
            Err(e) => {
                broken = Some(format!("worker {s} report: {e}"));
                continue;
            }
        };
        agg.evaluations += rep.evaluations;
        agg.units += rep.units;
        for h in rep.nontrivial {
            distinct.insert(h);
        }
        for (k, v) in rep.labels {
            *agg.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in rep.known {
            *agg.known.entry(k).or_insert(0) += v;
        }
        if agg.samples.len() < 6 {
            agg.samples.extend(rep.samples.into_iter().take(1));
        }
        if let Some((case, m)) = rep.failure {
            let path = write_replay(id, &format!("seed{seed}-shard{s}"), seed, &case, &m);
            violations.push((path, m));
        }
    }
    // 4. evidence
    let mut cov = serde_json::json!({
        "evaluations": agg.evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": p.rule(),
        "samples": agg.samples,
        "classes": agg.labels,
        "saved_cases_replayed": regressions,
        "worker_processes": shards,
        "dictionary_values": crate::gen::dict().ints.len(),
        "listed_findings_met_in_search": agg.known,
        "listed_findings_confirmed": confirmed,
        "exhaustive": false,
    });
    if agg.units > 0 {
        cov["inner_checks"] = agg.units.into();
    }
    let ev = serde_json::json!({
        "property": id,
        "tier": tier.name(),
        "seed": seed,
        "level": p.level(),
        "coverage": cov,
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", home()));
    if let Err(e) = std::fs::write(format!("{}/evidence/{id}.json", home()), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("ERROR {id}: evidence: {e}");
        return 2;
    }
    for (path, m) in &violations {
        println!("VIOLATION property={id} replay={path}");
        println!("  {}", sanitize(m));
    }
    if !violations.is_empty() {
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("ERROR {id}: {b}");
        println!("ERROR {id}: inconclusive: {b}");
        return 2;
    }
    println!(
        "OK property={id} tier={} seed={seed} cases={} distinct_nontrivial={} wall={:.1}s",
        tier.name(),
        agg.evaluations,
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}
