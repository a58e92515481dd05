use super::c16::{some_op, Live, Op, Snapshot};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::{addr, gap};
use crate::refmodel as r;
use blockchaintree::block;
use blockchaintree::blockchaintree::BlockChainTree;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub struct C17;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Do(Op),
    Flush,
    /// flush, close, open
    Reopen,
    /// a flush while another thread changes balances, stores transactions and appends main blocks
    FlushWith(Vec<Op>),
}
/// Where the process ends: at the `at`-th file operation counted from the beginning of a step (0: just before opening).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Kill {
    step: u16,
    /// take a flush or epoch step instead, if there is one
    prefer: bool,
    at: u16,
    /// 0 before that operation, 1 after half of it, 2 after it
    mode: u8,
    /// count operations on files whose path contains this only
    #[serde(default)]
    on: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seg {
    steps: Vec<Step>,
    kill: Kill,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// start this many blocks before an epoch boundary
    epoch: Option<u8>,
    segs: Vec<Seg>,
}

#[derive(Serialize, Deserialize)]
struct Job {
    dir: String,
    owners: Vec<u8>,
    from: u64,
    steps: Vec<Step>,
    /// file operations fail instead of ending the process
    fault: bool,
}

/// An operation another thread can do during a flush.
fn aside(t: &BlockChainTree, o: &Op) -> Result<(), String> {
    match o {
        Op::Add(a, n, false) => drop(guard(|| t.add_amount(&addr(*a), n.0))),
        Op::Add(a, n, true) => drop(guard(|| t.add_gas(&addr(*a), n.0))),
        Op::Sub(a, n, false) => drop(guard(|| t.sub_amount(&addr(*a), n.0))),
        Op::Sub(a, n, true) => drop(guard(|| t.sub_gas(&addr(*a), n.0))),
        Op::Set(a, n) => must("set_amount", || t.set_amount(&addr(*a), n.0))?,
        Op::Send(a, b, n, false) => drop(guard(|| t.send_amount(&addr(*a), &addr(*b), n.0))),
        Op::Send(a, b, n, true) => drop(guard(|| t.send_gas(&addr(*a), &addr(*b), n.0))),
        Op::Store(i) => must("add_transaction", || t.get_main_chain().add_transaction(&unsigned_tx(*i)))?,
        Op::Main { seed, .. } => {
            let ch = t.get_main_chain();
            let last = must("last block", || ch.get_last_block())?.ok_or("no last block")?;
            let x = last.get_info();
            let i = block::BasicInfo::new(x.timestamp.saturating_add(700), [*seed as u8; 32], must("hash", || last.hash())?, x.height + 1, r::difficulty_of(1), addr(4));
            let b = block::TransactionBlock::new(1.into(), i, [1; 32], vec![[2; 32]]);
            must("add_block", || ch.add_block(Arc::new(b)))?;
        }
        _ => {}
    }
    Ok(())
}

/// `seen` is called after each operation done beside a flush (which then is not concurrent).
fn step(l: Live, s: &Step, dir: &Path, seen: Option<&mut dyn FnMut(&Live) -> Result<(), String>>) -> Result<Live, String> {
    let mut l = l;
    match s {
        Step::FlushWith(ops) => {
            if let Some(seen) = seen {
                for o in ops {
                    aside(&l.t, o)?;
                    seen(&l)?;
                }
                l.flush()?;
            } else {
                let l = &l;
                let r = together(&[vec![true], vec![false]], |flush| if *flush { l.flush() } else { ops.iter().try_for_each(|o| aside(&l.t, o)) });
                for x in r.into_iter().flatten() {
                    x?;
                }
            }
        }
        Step::Do(o) => l.apply(o)?,
        Step::Flush => l.flush()?,
        Step::Reopen => {
            l.flush()?;
            l = l.reopen(dir)?;
        }
    }
    Ok(l)
}

/// The process that is ended by the preloaded shim.
pub fn child(args: &[String]) -> i32 {
    let job: Job = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let mut log = std::fs::OpenOptions::new().append(true).create(true).open(&args[1]).unwrap();
    *PANIC_LOG.lock().unwrap() = log.try_clone().ok();
    let mark: Option<extern "C" fn(libc::c_long)> = unsafe {
        let p = libc::dlsym(libc::RTLD_DEFAULT, c"vph_mark".as_ptr());
        if p.is_null() {
            None
        } else {
            Some(std::mem::transmute::<*mut libc::c_void, extern "C" fn(libc::c_long)>(p))
        }
    };
    let Some(mark) = mark else {
        let _ = writeln!(log, "X shim not loaded");
        return 3;
    };
    let dir = PathBuf::from(&job.dir);
    mark(0);
    let mut go = || -> Result<(), String> {
        let mut l = Live::open(&dir, &job.owners)?;
        l.from = job.from;
        for (i, s) in job.steps.iter().enumerate() {
            mark(i as libc::c_long + 1);
            let _ = writeln!(log, "B {i}");
            if let (true, Step::Flush) = (job.fault, s) {
                // a failed flush can be tried again
                if let Err(e) = l.flush() {
                    let _ = writeln!(log, "F {i} {}", e.replace('\n', " "));
                    continue;
                }
            } else {
                l = step(l, s, &dir, None)?;
            }
            let _ = writeln!(log, "D {i}");
        }
        // no closing: the process just ends
        unsafe { libc::_exit(78) }
    };
    if let Err(e) = go() {
        let _ = writeln!(log, "{} {}", if job.fault { "S" } else { "E" }, e.replace('\n', " "));
        if job.fault {
            unsafe { libc::_exit(78) }
        }
    }
    unsafe { libc::_exit(4) }
}

pub fn copy_tree(a: &Path, b: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(b)?;
    for e in std::fs::read_dir(a)? {
        let e = e?;
        let to = b.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_tree(&e.path(), &to)?;
        } else {
            std::fs::copy(e.path(), to)?;
        }
    }
    Ok(())
}

pub fn shim() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("vph-shim.so")
}

/// Removes what the listed findings K3 (an incomplete snapshot) and K4 (an incomplete configuration of a store
/// just created) consist of, and says what was there.
fn salvage(dir: &Path, conf: &[u8], derivative: bool, found: &mut Vec<(&'static str, String)>) -> std::io::Result<()> {
    for e in std::fs::read_dir(dir)? {
        let e = e?;
        let name = e.file_name().to_string_lossy().into_owned();
        if e.file_type()?.is_dir() {
            let p = e.path();
            let derivative = derivative || name == "DERIVATIVES";
            if derivative && p.join("conf").is_file() && std::fs::read(p.join("conf"))? != conf {
                found.push(("K4", p.display().to_string()));
                std::fs::remove_dir_all(&p)?;
            } else {
                salvage(&p, conf, derivative, found)?;
            }
        } else if name.starts_with("snap.") && name.ends_with(".generating") {
            found.push(("K3", e.path().display().to_string()));
            std::fs::remove_file(e.path())?;
        }
    }
    Ok(())
}

/// Panics of the library itself, not of the storage engine beneath it.
pub fn library_panics(log: &str) -> Result<(), String> {
    let own = |l: &&str| l.rsplit_once(" at /").is_some_and(|(_, loc)| loc.contains("/src/") && !loc.contains("/registry/") && !loc.starts_with("rustc/"));
    match log.lines().filter_map(|l| l.strip_prefix("P ")).find(own) {
        Some(p) => Err(format!("a failing file operation makes the library panic: {p}")),
        None => Ok(()),
    }
}

/// How a process that was to be ended or disturbed went.
struct Ran {
    /// the steps that were completed
    done: Vec<usize>,
    begun: usize,
    killed: bool,
    /// failed flushes
    failed: usize,
    first_failed: Option<usize>,
    /// what it stopped at after a failing file operation
    stopped: Option<String>,
}

/// Runs the steps in a process that is killed, or whose file operations fail, as asked.
fn crash(job: &Job, k: &Kill, work: &Path) -> Result<Option<Ran>, String> {
    let jf = work.join("job.json");
    let lf = work.join("log");
    let _ = std::fs::remove_file(&lf);
    std::fs::write(&jf, serde_json::to_string(job).unwrap()).map_err(|e| format!("HARNESS {e}"))?;
    let mut target = k.step as usize % (job.steps.len() + 1);
    if k.prefer {
        let fl: Vec<usize> = (0..job.steps.len()).filter(|i| !matches!(job.steps[*i], Step::Do(ref o) if !matches!(o, Op::Main { .. }))).collect();
        if !fl.is_empty() {
            target = fl[k.step as usize % fl.len()] + 1;
        }
    }
    ensure!(shim().is_file(), "HARNESS no shim at {}", shim().display());
    let mut c = Command::new(std::env::current_exe().unwrap());
    if let Some(on) = &k.on {
        c.env("VPH_KILL_ON", on);
    }
    let mut c = c
        .arg("crashchild")
        .arg(&jf)
        .arg(&lf)
        .env("LD_PRELOAD", shim())
        .env("VPH_PREFIX", &job.dir)
        .env("VPH_KILL_STEP", target.to_string())
        .env("VPH_KILL_AT", (k.at as u64 + 1).to_string())
        .env("VPH_KILL_MODE", k.mode.to_string())
        .stdout(Stdio::null())
        .stderr(if std::env::var_os("VPH_LOUD").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .map_err(|e| format!("HARNESS {e}"))?;
    let t = Instant::now();
    let code = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s.code().unwrap_or(-1),
            Ok(None) if t.elapsed() > Duration::from_secs(if job.fault { 30 } else { 120 }) => {
                let _ = c.kill();
                let _ = c.wait();
                if job.fault {
                    return Ok(None);
                }
                return Err("HARNESS the child of a crash case hangs".into());
            }
            Ok(None) => std::thread::sleep(Duration::from_micros(500)),
            Err(e) => return Err(format!("HARNESS {e}")),
        }
    };
    let log = std::fs::read_to_string(&lf).unwrap_or_default();
    if let Some(e) = log.lines().find_map(|l| l.strip_prefix("X ")) {
        return Err(format!("HARNESS {e}"));
    }
    if let Some(e) = log.lines().find_map(|l| l.strip_prefix("E ")) {
        return Err(format!("before any crash: {e}"));
    }
    // sled itself may abort (also while closing) when its files fail
    let aborted = job.fault && (code == -1 || code == 101);
    ensure!(aborted || code == 77 || code == 78, "before any crash: the process ended with {code}");
    library_panics(&log)?;
    let begun = log.lines().filter(|l| l.starts_with("B ")).count();
    let done = log.lines().filter_map(|l| l.strip_prefix("D ")?.parse().ok()).collect();
    let failed = log.lines().filter(|l| l.starts_with("F ")).count();
    let stopped = log.lines().find_map(|l| l.strip_prefix("S ")).map(|l| l.to_string()).or(aborted.then(|| "aborted".into()));
    let first_failed = log.lines().find_map(|l| l.strip_prefix("F ")?.split(' ').next()?.parse().ok());
    Ok(Some(Ran { done, begun, killed: code == 77, failed, first_failed, stopped }))
}

fn prefix(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    a.len() <= b.len() && a == &b[..a.len()]
}

/// Judges the recovered tree against the states since the last completed flush.
fn judge(rec: &Live, flushed: &Snapshot, states: &[Snapshot]) -> Result<Snapshot, String> {
    let now = rec.snapshot()?;
    let reached = states.last().unwrap();
    ensure!(now.main.len() >= flushed.main.len(), "the main chain was flushed with {} blocks and recovered with {}", flushed.main.len(), now.main.len());
    ensure!(now.main.len() <= reached.main.len(), "the main chain was recovered with {} blocks but never had more than {}", now.main.len(), reached.main.len());
    ensure!(prefix(&now.main, &reached.main), "a recovered main block is not the one that was appended");
    for (o, (anchor, blocks)) in &now.derivs {
        let (fa, fb) = flushed.derivs.get(o).map(|x| (Some(x.0), x.1.len())).unwrap_or((None, 0));
        if let Some(fa) = fa {
            ensure!(*anchor == fa, "a flushed derivative chain came back with another anchor");
        }
        ensure!(blocks.len() >= fb, "a derivative chain was flushed with {fb} blocks and recovered with {}", blocks.len());
        match reached.derivs.get(o) {
            Some((ra, rb)) => ensure!(blocks.is_empty() || (ra == anchor && prefix(blocks, rb)), "a recovered derivative chain is not a prefix of the one before the crash"),
            None => ensure!(blocks.is_empty(), "a derivative chain that never existed has blocks"),
        }
        let c = &rec.chains[o];
        for b in blocks {
            ensure!(must("find_raw_by_hash", || c.find_raw_by_hash(&r::sha(b)))?.as_ref() == Some(b), "a recovered derivative block is not found under its hash");
        }
    }
    for (i, raw) in &flushed.txs {
        ensure!(now.txs.get(i) == Some(raw), "a flushed transaction is lost or altered");
    }
    for (i, raw) in &now.txs {
        ensure!(reached.txs.get(i) == Some(raw), "a recovered transaction was never stored");
    }
    if !states.iter().any(|s| s.funds.coins == now.funds.coins) {
        let d = now.funds.coins.iter().find(|(k, v)| flushed.funds.coins[*k] != **v).unwrap();
        return Err(format!("the recovered coin balances are those of no moment since the last flush (account {} has {}, {} when flushed, {} at the end)", hex::encode(d.0), d.1, flushed.funds.coins[d.0], reached.funds.coins[d.0]));
    }
    if !states.iter().any(|s| s.funds.gas == now.funds.gas) {
        let d = now.funds.gas.iter().find(|(k, v)| flushed.funds.gas[*k] != **v).unwrap();
        return Err(format!("the recovered gas balances are those of no moment since the last flush (account {} has {}, {} when flushed, {} at the end)", hex::encode(d.0), d.1, flushed.funds.gas[d.0], reached.funds.gas[d.0]));
    }
    Ok(now)
}

impl Property for C17 {
    type Case = Case;
    const ID: &'static str = "C17";
    fn rule() -> &'static str {
        "1..3 segments of history (coin and gas changes, transfers, main and derivative emission, stored transactions, rarely large ones; flushes, some with another thread changing the tree meanwhile, reopens; one case in three across an epoch boundary) run in a child process that ends at a chosen file operation (before it, half-way through it or after it; flushes, reopens and epoch emissions preferred), on a store with a completed first flush; an uncrashed copy of the same history gives the states the recovered stores may hold; each recovered tree is extended, flushed and reopened, and is the start of the next segment; non-trivial: the process was killed at a file operation after at least one change"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(900, 14_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["a crash is the end of the process at a write, truncate, create, rename, remove or copy of its own; data handed to the operating system survives (no power loss)", "file operations are counted across all threads of the process, so the exact point inside a flush depends on its schedule", "coin and gas balances live in two stores and may come from different moments since the flush"]
    }
    fn max_shrink_iters() -> u32 {
        250
    }
    fn replay_times() -> u32 {
        4
    }
    fn witnesses() -> Vec<(&'static str, Case)> {
        vec![("K3", in_snapshot(0, 1)), ("K4", in_new_store(2, 0))]
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        histories(0..3)
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        run_case(c, cx, false)
    }
}

fn witness(steps: Vec<Step>, on: &str, at: u16, mode: u8) -> Case {
    let kill = Kill { step: steps.len() as u16, prefer: false, at, mode, on: Some(on.into()) };
    Case { epoch: None, segs: vec![Seg { steps, kill }] }
}
/// In the middle of writing a snapshot.
pub fn in_snapshot(at: u16, mode: u8) -> Case {
    witness(vec![Step::Do(Op::Add(1, crate::gen::N(5.into()), true)), Step::Reopen], "generating", at, mode)
}
/// In the middle of writing the configuration of a new derivative chain's store.
pub fn in_new_store(at: u16, mode: u8) -> Case {
    witness(vec![Step::Do(Op::Deriv { owner: 1, gap: 700, seed: 1 })], "/conf", at, mode)
}

/// Histories with a file operation to end or to disturb the process at.
pub fn histories(modes: std::ops::Range<u8>) -> BoxedStrategy<Case> {
    let s = prop_oneof![
        7 => some_op().prop_map(Step::Do),
        2 => Just(Step::Flush),
        1 => proptest::collection::vec(some_op(), 1..8).prop_map(Step::FlushWith),
        1 => Just(Step::Reopen),
    ];
    let at = prop_oneof![4 => 0u16..8, 3 => 0u16..30, 1 => 0u16..80];
    let kill = (any::<u16>(), prop::bool::weighted(0.8), at, modes.clone()).prop_map(|(step, prefer, at, mode)| Kill { step, prefer, at, mode, on: None });
    let seg = (proptest::collection::vec(s, 1..12), kill).prop_map(|(steps, kill)| Seg { steps, kill });
    let calm = some_op().prop_map(|o| match o {
        Op::Main { .. } => Step::Flush,
        o => Step::Do(o),
    });
    // ends inside the emission that crosses the boundary
    let inside = (proptest::collection::vec(calm, 0..7), prop_oneof![2 => 0u16..12, 3 => 0u16..150], modes, gap(), any::<u32>(), proptest::collection::vec(seg.clone(), 0..2)).prop_map(|(mut steps, at, mode, gap, seed, mut segs)| {
        steps.push(Step::Do(Op::Main { gap, seed }));
        segs.insert(0, Seg { kill: Kill { step: steps.len() as u16, prefer: false, at, mode, on: None }, steps });
        Case { epoch: Some(0), segs }
    });
    let any_case = (proptest::option::weighted(0.3, 0u8..3), proptest::collection::vec(seg, 1..4)).prop_map(|(epoch, segs)| Case { epoch, segs });
    prop_oneof![4 => any_case, 1 => inside].boxed()
}

/// With `fault`, file operations fail instead of ending the process.
pub fn run_case(c: &Case, cx: &mut Cx, fault: bool) -> Result<(), String> {
    let dir = cx.dir();
    let work = cx.dir();
    let mut l = Live::open(&dir, &[])?;
    if let Some(lead) = c.epoch {
        l = l.jump(&dir, 1_000_000 - lead as u64 - 1, 1)?;
    }
    l.flush()?;
    let from = l.from;
    let mut base = l.snapshot()?;
    drop(l);
    for (n, seg) in c.segs.iter().enumerate() {
        let owners: Vec<u8> = base.derivs.keys().copied().collect();
        // the same history without a crash
        let rdir = cx.dir();
        // wait until the store is released
        drop(Live::open(&dir, &owners)?);
        copy_tree(&dir, &rdir).map_err(|e| format!("HARNESS copy {e}"))?;
        let mut states = vec![base.clone()];
        let mut x = Live::open(&rdir, &owners)?;
        x.from = from;
        // ends[i]: the state after i steps
        let mut ends = vec![0];
        for s in &seg.steps {
            x = step(x, s, &rdir, Some(&mut |l: &Live| {
                states.push(l.snapshot()?);
                Ok(())
            }))?;
            states.push(x.snapshot()?);
            ends.push(states.len() - 1);
        }
        drop(x);
        // the crash
        let job = Job { dir: dir.to_str().unwrap().into(), owners: owners.clone(), from, steps: seg.steps.clone(), fault };
        let ran = match crash(&job, &seg.kill, &work)? {
            Some(ran) => ran,
            None => {
                cx.label("undecided: does not end after the failing operation");
                return Ok(());
            }
        };
        let (done, begun) = (&ran.done, ran.begun);
        // a flush with operations beside it covers what was there before
        let flushed = done
            .iter()
            .rev()
            .find(|i| !matches!(seg.steps[**i], Step::Do(_)))
            .map(|i| if matches!(seg.steps[*i], Step::FlushWith(_)) { *i } else { *i + 1 })
            .unwrap_or(0);
        let last = begun.max(flushed);
        let how = if fault {
            let hit = ran.failed > 0 || ran.stopped.is_some();
            cx.label(if hit { "failed at a file operation" } else { "no operation failed" });
            if ran.failed > 0 {
                cx.label("a flush failed");
                if ran.failed > 1 {
                    cx.label("several flushes failed");
                }
                if done.iter().any(|i| !matches!(seg.steps[*i], Step::Do(_)) && ran.first_failed.map_or(false, |f| *i > f)) {
                    cx.label("a flush completed after one that failed");
                }
            }
            if let Some(s) = &ran.stopped {
                cx.label(match seg.steps.get(begun.wrapping_sub(1)) {
                    None => "stopped while opening",
                    Some(Step::Do(_)) => "stopped at an operation",
                    Some(_) => "stopped at a flush or reopen",
                });
                if s == "aborted" {
                    cx.label("aborted");
                } else if s.contains("panic") {
                    cx.label("stopped by a panic");
                }
            }
            if hit && last > 0 {
                cx.nontrivial();
            }
            format!("with failing file operations: {} flushes failed, {}", ran.failed, ran.stopped.as_deref().map_or("went on to the end".into(), |s| format!("stopped at {s:?}")))
        } else {
            cx.label(if ran.killed { "killed at a file operation" } else { "ended without closing" });
            if begun > done.len() {
                cx.label(match &seg.steps[done.len()] {
                    Step::Flush => "killed inside a flush",
                    Step::FlushWith(_) => "killed inside a flush with operations beside it",
                    Step::Reopen => "killed inside flush, close and open",
                    Step::Do(Op::Main { .. }) if c.epoch.is_some() && states[ends[done.len()]].main.len() + from as usize == 1_000_000 => "killed inside an epoch boundary",
                    Step::Do(_) => "killed inside an operation",
                });
            } else if ran.killed && begun == 0 {
                cx.label("killed while opening");
            }
            if ran.killed && last > 0 {
                cx.nontrivial();
            }
            "killed".to_string()
        };
        // recovery
        let at = format!("segment {} {how}, after {} of {} steps ({begun} begun)", n + 1, done.len(), seg.steps.len());
        let ever: Vec<u8> = states[ends[last]].derivs.keys().copied().collect();
        let mut rec = match Live::open(&dir, &ever) {
            Ok(l) => l,
            Err(e) => {
                // sled itself may be unable to open a store it was creating or taking a snapshot of
                let conf = std::fs::read(rdir.join("SUMMARY/conf")).map_err(|e| format!("HARNESS {e}"))?;
                let mut found = vec![];
                salvage(&dir, &conf, false, &mut found).map_err(|e| format!("HARNESS {e}"))?;
                if found.is_empty() {
                    return Err(format!("{at}: {e}"));
                }
                for (id, _) in &found {
                    let id = match (fault, *id) {
                        (true, "K3") => "K5",
                        (true, _) => "K6",
                        (false, id) => id,
                    };
                    cx.known(id, &format!("{at}: {e}"))?;
                }
                cx.label("opened after repairing what sled left behind");
                Live::open(&dir, &ever).map_err(|e| format!("{at}, after removing {found:?}: {e}"))?
            }
        };
        rec.from = from;
        let got = judge(&rec, &states[ends[flushed]], &states[ends[flushed]..=ends[last]]).map_err(|e| format!("{at}: {e}"))?;
        if got.main.len() < states[ends[last]].main.len() {
            cx.label("recovered below the reached height");
        }
        // and it goes on
        for k in 0..2u32 {
            rec.apply(&Op::Main { gap: 700, seed: 40 + k + n as u32 * 2 }).map_err(|e| format!("{at}, then: {e}"))?;
        }
        rec.apply(&Op::Deriv { owner: n as u8 % 3, gap: 700, seed: n as u32 }).map_err(|e| format!("{at}, then: {e}"))?;
        rec.flush().map_err(|e| format!("{at}, then: {e}"))?;
        base = rec.snapshot().map_err(|e| format!("{at}, then: {e}"))?;
        ensure!(base.main.len() == got.main.len() + 2, "{at}: two blocks emitted after the recovery gave {} instead of {}", base.main.len(), got.main.len() + 2);
        let rec = rec.reopen(&dir).map_err(|e| format!("{at}, then: {e}"))?;
        if let Some(d) = base.differs(&rec.snapshot()?) {
            return Err(format!("{at}, extended, flushed and reopened: {d}"));
        }
        drop(rec);
        cx.units += 1;
    }
    Ok(())
}
