use super::c26::{blob, grow, snapshot, Blob, Node};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use blockchaintree::summary_db::SummaryDB;
use blockchaintree::tools;
use num_bigint::BigUint;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct C33;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(u8, N),
    Take(u8, N),
    /// flush the funds store
    Flush,
    /// compress into the file with this number
    Compress(u8, Blob),
    /// copy the source tree to the directory with this number
    Copy(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Vec<Node>,
    ops: Vec<Op>,
    /// the operation that is disturbed
    step: u8,
    /// an operation on files instead, if there is one
    files: bool,
    /// its file operation
    at: u8,
    /// 3 that file operation fails, 4 it and all later ones fail, 5 it writes half
    mode: u8,
}
#[derive(Serialize, Deserialize)]
struct Job {
    dir: String,
    ops: Vec<Op>,
}

pub fn child(args: &[String]) -> i32 {
    let job: Job = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let mut log = std::fs::OpenOptions::new().append(true).create(true).open(&args[1]).unwrap();
    *PANIC_LOG.lock().unwrap() = log.try_clone().ok();
    let mark: extern "C" fn(libc::c_long) = unsafe {
        let p = libc::dlsym(libc::RTLD_DEFAULT, c"vph_mark".as_ptr());
        if p.is_null() {
            return 3;
        }
        std::mem::transmute::<*mut libc::c_void, extern "C" fn(libc::c_long)>(p)
    };
    let dir = PathBuf::from(&job.dir);
    let db = SummaryDB::new(sled::open(dir.join("db")).unwrap());
    for (i, o) in job.ops.iter().enumerate() {
        mark(i as libc::c_long + 1);
        let _ = writeln!(log, "B {i}");
        let r = guard(|| match o {
            Op::Add(a, n) => block_on(db.add_funds(&addr(*a), &n.0)).is_ok(),
            Op::Take(a, n) => block_on(db.decrease_funds(&addr(*a), &n.0)).is_ok(),
            Op::Flush => block_on(db.flush()).is_ok(),
            Op::Compress(f, b) => tools::compress_to_file(dir.join(format!("f{f}")).to_str().unwrap().into(), &b.bytes()).is_ok(),
            Op::Copy(d) => tools::copy_dir_all(dir.join("src"), dir.join(format!("d{d}/x"))).is_ok(),
        });
        let _ = writeln!(log, "{} {i}", if matches!(r, Ok(true)) { "D" } else { "F" });
    }
    unsafe { libc::_exit(78) }
}

impl Property for C33 {
    type Case = Case;
    const ID: &'static str = "C33";
    fn rule() -> &'static str {
        "1..14 additions to and withdrawals from the funds store, flushes of it, compressions to files and copies of a directory tree in a child process in which one chosen file operation, or all from it on, fail with a full disk, or one writes only half of what it was given; whatever the child saw succeed is verified afterwards, and the funds store must hold balances that its answers explain and accept changes again; non-trivial: an operation reported a failure because of it"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(10_000, 200_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["failures are those of writes, truncations, creations, renames, removals and syncs; reads succeed", "a change of funds that reported a failure may have taken place", "the funds store is opened undisturbed; a child that does not end within 30 s is counted as undecided"]
    }
    fn max_shrink_iters() -> u32 {
        400
    }
    fn replay_times() -> u32 {
        3
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let n = || amount().prop_map(|n| N(n.0.max(U256::one())));
        let data = prop_oneof![2 => blob(3000), 2 => blob(400_000), 1 => (300_000usize..2_000_000, any::<u64>(), 0u8..4).prop_map(|(n, seed, kind)| Blob { n, seed, kind })];
        let o = prop_oneof![
            4 => (0u8..3, n()).prop_map(|(a, n)| Op::Add(a, n)),
            2 => (0u8..3, n()).prop_map(|(a, n)| Op::Take(a, n)),
            1 => Just(Op::Flush),
            3 => (0u8..3, data).prop_map(|(f, b)| Op::Compress(f, b)),
            3 => (0u8..3).prop_map(Op::Copy),
        ];
        let at = prop_oneof![3 => 0u8..4, 2 => 0u8..20];
        let node = (proptest::collection::vec(0u8..8, 1..4), proptest::option::weighted(0.8, blob(20_000)));
        (proptest::collection::vec(node, 0..8), proptest::collection::vec(o, 1..14), any::<u8>(), any::<bool>(), at, 3u8..6)
            .prop_map(|(tree, ops, step, files, at, mode)| Case { tree, ops, step, files, at, mode })
            .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let work = cx.dir();
        grow(&dir.join("src"), &c.tree)?;
        let tree = snapshot(&dir.join("src"))?;
        // the store is created undisturbed
        drop(open_sled(&dir.join("db"))?);
        let job = Job { dir: dir.to_str().unwrap().into(), ops: c.ops.clone() };
        let (jf, lf) = (work.join("job"), work.join("log"));
        std::fs::write(&jf, serde_json::to_string(&job).unwrap()).map_err(|e| format!("HARNESS {e}"))?;
        let shim = super::c17::shim();
        ensure!(shim.is_file(), "HARNESS no shim");
        let on_files: Vec<usize> = (0..c.ops.len()).filter(|i| matches!(c.ops[*i], Op::Compress(..) | Op::Copy(..))).collect();
        let target = if c.files && !on_files.is_empty() { on_files[c.step as usize % on_files.len()] } else { c.step as usize % c.ops.len() };
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .arg("faultchild")
            .arg(&jf)
            .arg(&lf)
            .env("LD_PRELOAD", shim)
            .env("VPH_PREFIX", &dir)
            .env("VPH_KILL_STEP", (target + 1).to_string())
            .env("VPH_KILL_AT", (c.at as u64 + 1).to_string())
            .env("VPH_KILL_MODE", c.mode.to_string())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("HARNESS {e}"))?;
        let t = Instant::now();
        let code = loop {
            match ch.try_wait().map_err(|e| format!("HARNESS {e}"))? {
                Some(s) => break s.code(),
                None if t.elapsed() > Duration::from_secs(30) => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    cx.label("undecided: does not end after the failing operation");
                    return Ok(());
                }
                None => std::thread::sleep(Duration::from_micros(500)),
            }
        };
        let log = std::fs::read_to_string(&lf).unwrap_or_default();
        // 101: sled panics outside an operation, none: sled aborts
        ensure!(matches!(code, Some(78 | 101) | None), "HARNESS the child ended with {code:?}");
        super::c17::library_panics(&log)?;
        let has = |i: usize, k: &str| log.lines().any(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix(' ')).and_then(|l| l.parse().ok()) == Some(i));

        let mut funds: BTreeMap<u8, BTreeSet<U256>> = (0..3).map(|a| (a, BTreeSet::from([U256::zero()]))).collect();
        let mut files: BTreeMap<u8, Option<&Blob>> = BTreeMap::new();
        let mut dirs: BTreeMap<u8, bool> = BTreeMap::new();
        let mut failed = 0;
        for (i, o) in c.ops.iter().enumerate() {
            if !has(i, "B") {
                break;
            }
            let ok = has(i, "D");
            let what = format!("operation {i} with file operation {} of operation {target} failing (mode {})", c.at, c.mode);
            match o {
                Op::Add(a, n) | Op::Take(a, n) => {
                    let f = |x: &U256| if matches!(o, Op::Add(..)) { x.checked_add(n.0) } else { x.checked_sub(n.0) };
                    let s = funds.get_mut(a).unwrap();
                    let new: BTreeSet<U256> = s.iter().filter_map(f).collect();
                    if ok {
                        ensure!(!new.is_empty(), "{what}: accepted with a balance of {s:?}");
                        *s = new;
                    } else {
                        if new.len() == s.len() {
                            failed += 1;
                            cx.label("a change of funds failed");
                        }
                        s.extend(new);
                    }
                }
                Op::Flush => {
                    if !ok {
                        failed += 1;
                        cx.label("a flush of the funds failed");
                    }
                }
                Op::Compress(f, b) => {
                    if !ok {
                        failed += 1;
                        cx.label("a compression failed");
                    }
                    files.insert(*f, ok.then_some(b));
                }
                Op::Copy(d) => {
                    if !ok {
                        failed += 1;
                        cx.label("a copy failed");
                    }
                    dirs.insert(*d, ok);
                }
            }
        }
        let what = format!("with file operation {} of operation {target} failing (mode {})", c.at, c.mode);
        for (f, b) in &files {
            if let Some(b) = b {
                let back = must("decompress", || tools::decompress_from_file(dir.join(format!("f{f}")).to_str().unwrap().into())).map_err(|e| format!("{what}: a compression reported success, then {e}"))?;
                ensure!(back == b.bytes(), "{what}: a compression of {} bytes reported success, but {} bytes or different ones come back", b.bytes().len(), back.len());
            }
        }
        for (d, ok) in &dirs {
            if *ok {
                let got = snapshot(&dir.join(format!("d{d}/x")))?;
                ensure!(got == tree, "{what}: a copy reported success, but the copy differs from the source");
            }
        }
        let db = SummaryDB::new(open_sled(&dir.join("db"))?);
        for (a, s) in &funds {
            let got: BigUint = must("get_funds", || db.get_funds(&addr(*a)))?;
            let fits = s.iter().any(|x| {
                let mut be = [0u8; 32];
                x.to_big_endian(&mut be);
                BigUint::from_bytes_be(&be) == got
            });
            ensure!(fits, "{what}: address {a} has {got}, which its changes do not explain (possible: {s:?})");
            let mut be = got.to_bytes_be();
            be.truncate(32);
            let now = U256::from_big_endian(&be);
            if let Some(n) = now.checked_add(1.into()) {
                must("add_funds", || block_on(db.add_funds(&addr(*a), &1.into()))).map_err(|e| format!("{what}: afterwards, {e}"))?;
                let mut be = [0u8; 32];
                n.to_big_endian(&mut be);
                ensure!(must("get_funds", || db.get_funds(&addr(*a)))? == BigUint::from_bytes_be(&be), "{what}: afterwards, adding one does not add one");
            }
        }
        if failed > 0 {
            cx.nontrivial();
        }
        cx.label(match c.mode {
            3 => "one failure",
            4 => "failures from then on",
            _ => "a short write",
        });
        if code != Some(78) {
            cx.label("sled ended the process");
        }
        cx.units += c.ops.len() as u64;
        Ok(())
    }
}
