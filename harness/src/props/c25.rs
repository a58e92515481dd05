use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use blockchaintree::summary_db::SummaryDB;
use num_bigint::BigUint;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct C25;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amt {
    Is(N),
    Bal(i8),
    Room(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(u8, Amt),
    Take(u8, Amt),
    Reopen,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    extra: Vec<B>,
    ops: Vec<Op>,
    /// end the process: (right after this step, or (file operation, mode) inside it)
    crash: Option<(u8, Option<(u8, u8)>)>,
}
type Book = BTreeMap<Addr, Option<U256>>;

fn plan(b: &Book, o: &Op, acc: &[Addr]) -> Option<(Addr, U256, Option<U256>, bool)> {
    // address, amount, new balance if it is to succeed, outcome left open
    let shift = |n: U256, d: i8| if d >= 0 { n.saturating_add((d as u64).into()) } else { n.saturating_sub((d.unsigned_abs() as u64).into()) };
    match o {
        Op::Reopen => None,
        Op::Add(a, x) | Op::Take(a, x) => {
            let who = acc[*a as usize % acc.len()];
            let bal = b.get(&who).copied().flatten();
            let have = bal.unwrap_or_default();
            let add = matches!(o, Op::Add(..));
            let v = match x {
                Amt::Is(n) => n.0,
                Amt::Bal(d) => shift(have, *d),
                Amt::Room(d) if add => shift(U256::MAX - have, *d),
                Amt::Room(d) => shift(have, *d),
            };
            if add {
                Some((who, v, have.checked_add(v), false))
            } else if bal.is_none() {
                // taking nothing from an address without funds may be refused or not
                Some((who, v, None, v.is_zero()))
            } else {
                Some((who, v, have.checked_sub(v), false))
            }
        }
    }
}

fn check(db: &SummaryDB, b: &Book, acc: &[Addr]) -> Result<(), String> {
    for a in acc {
        let got: BigUint = must("get_funds", || db.get_funds(a))?;
        let want = b.get(a).copied().flatten().unwrap_or_default();
        let mut be = [0u8; 32];
        want.to_big_endian(&mut be);
        ensure!(got == BigUint::from_bytes_be(&be), "address {} has {got}, expected {want}", hex::encode(a));
    }
    Ok(())
}

#[derive(Serialize, Deserialize)]
struct Job {
    dir: String,
    acc: Vec<B>,
    ops: Vec<Op>,
    /// last step; the process ends right after it
    stop: usize,
}

pub fn child(args: &[String]) -> i32 {
    let job: Job = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let mut log = std::fs::OpenOptions::new().append(true).create(true).open(&args[1]).unwrap();
    let mark: Option<extern "C" fn(libc::c_long)> = unsafe {
        let p = libc::dlsym(libc::RTLD_DEFAULT, c"vph_mark".as_ptr());
        if p.is_null() {
            None
        } else {
            Some(std::mem::transmute::<*mut libc::c_void, extern "C" fn(libc::c_long)>(p))
        }
    };
    let acc: Vec<Addr> = job.acc.iter().map(|b| b.a()).collect();
    let mut book = Book::new();
    let db = SummaryDB::new(sled::open(&job.dir).unwrap());
    for (i, o) in job.ops.iter().enumerate() {
        if let Some(m) = mark {
            m(i as libc::c_long + 1);
        }
        let _ = writeln!(log, "B {i}");
        if let Some((who, v, new, _)) = plan(&book, o, &acc) {
            let r = guard(|| {
                block_on(async {
                    match o {
                        Op::Add(..) => db.add_funds(&who, &v).await.is_ok(),
                        _ => db.decrease_funds(&who, &v).await.is_ok(),
                    }
                })
            });
            if matches!(r, Ok(true)) {
                if let Some(n) = new {
                    book.insert(who, Some(n));
                }
            }
        }
        let _ = writeln!(log, "D {i}");
        if i == job.stop {
            unsafe { libc::_exit(78) }
        }
    }
    unsafe { libc::_exit(78) }
}

fn crash_case(c: &Case, step: u8, inside: Option<(u8, u8)>, acc: &[Addr], cx: &mut Cx) -> Result<(), String> {
    let dir = cx.dir().join("db");
    let work = cx.dir();
    let ops: Vec<Op> = c.ops.iter().filter(|o| !matches!(o, Op::Reopen)).cloned().collect();
    if ops.is_empty() {
        return Ok(());
    }
    let stop = step as usize % ops.len();
    // the states after each step
    let mut states = vec![Book::new()];
    for o in &ops {
        let mut b = states.last().unwrap().clone();
        if let Some((who, v, Some(n), false)) = plan(&b, o, acc) {
            // adding nothing does not create an account
            if !(v.is_zero() && b.get(&who).copied().flatten().is_none()) {
                b.insert(who, Some(n));
            }
        }
        states.push(b);
    }
    let job = Job { dir: dir.to_str().unwrap().into(), acc: acc.iter().map(|a| B(a.to_vec())).collect(), ops: ops.clone(), stop };
    let (jf, lf) = (work.join("job"), work.join("log"));
    std::fs::write(&jf, serde_json::to_string(&job).unwrap()).map_err(|e| format!("HARNESS {e}"))?;
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("fundschild").arg(&jf).arg(&lf).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some((at, mode)) = inside {
        let shim: PathBuf = super::c17::shim();
        ensure!(shim.is_file(), "HARNESS no shim");
        cmd.env("LD_PRELOAD", shim)
            .env("VPH_PREFIX", &dir)
            .env("VPH_KILL_STEP", (stop + 1).to_string())
            .env("VPH_KILL_AT", (at as u64 + 1).to_string())
            .env("VPH_KILL_MODE", mode.to_string());
    }
    let code = cmd.status().map_err(|e| format!("HARNESS {e}"))?.code();
    ensure!(matches!(code, Some(77 | 78)), "HARNESS the child ended with {code:?}");
    let log = std::fs::read_to_string(&lf).unwrap_or_default();
    let done = log.lines().filter(|l| l.starts_with("D ")).count();
    let begun = log.lines().filter(|l| l.starts_with("B ")).count();
    cx.label(if begun > done { "killed inside a change" } else { "killed right after a change" });
    let db = SummaryDB::new(open_sled(&dir)?);
    let now = check(&db, &states[done], acc);
    if now.is_err() && begun > done && check(&db, &states[begun], acc).is_ok() {
        return Ok(());
    }
    now.map_err(|e| format!("after the process ended {} step {}: {e}", if begun > done { "inside" } else { "right after" }, begun))?;
    if states[done] != states[0] {
        cx.nontrivial();
    }
    Ok(())
}

fn open(dir: &Path) -> Result<SummaryDB, String> {
    Ok(SummaryDB::new(open_sled(dir)?))
}

impl Property for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    fn rule() -> &'static str {
        "histories of 1..40 additions and withdrawals over 8 addresses (valid and invalid as text), amounts boundary-biased over 256 bits or relative to the balance or to the remaining room, with reopens, against an exact model; half of the cases run in a process that ends without closing right after a change, or inside one at a chosen file operation, and the reopened store is compared with the model; non-trivial: at least one refused and two effective changes, or a crash after an effective change"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(9_000, 180_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["a crash is the end of the process; data handed to the operating system survives", "taking zero from an address that never received funds may be refused or not"]
    }
    fn replay_times() -> u32 {
        3
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let am = || {
            prop_oneof![
                3 => num().prop_map(Amt::Is),
                4 => amount().prop_map(Amt::Is),
                3 => (-2i8..=2).prop_map(Amt::Bal),
                1 => (-2i8..=2).prop_map(Amt::Room),
            ]
        };
        let o = prop_oneof![
            5 => (0u8..8, am()).prop_map(|(a, n)| Op::Add(a, n)),
            4 => (0u8..8, am()).prop_map(|(a, n)| Op::Take(a, n)),
            1 => Just(Op::Reopen),
        ];
        let text = proptest::collection::vec(0x20u8..0x7f, 33).prop_map(B);
        let extra = (text, proptest::collection::vec(arr(33), 2)).prop_map(|(t, mut v)| {
            v.push(t);
            v
        });
        let crash = proptest::option::of((any::<u8>(), proptest::option::of((0u8..6, 0u8..3))));
        (extra, proptest::collection::vec(o, 1..40), crash).prop_map(|(extra, ops, crash)| Case { extra, ops, crash }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut acc = accounts(5);
        acc.extend(c.extra.iter().map(|b| b.a::<33>()));
        if let Some((step, inside)) = c.crash {
            return crash_case(c, step, inside, &acc, cx);
        }
        let dir = cx.dir().join("db");
        let mut db = open(&dir)?;
        let mut book = Book::new();
        let (mut eff, mut refused) = (0, 0);
        for o in &c.ops {
            match plan(&book, o, &acc) {
                None => {
                    drop(db);
                    db = open(&dir)?;
                    cx.label("reopened");
                }
                Some((who, v, new, open)) => {
                    let add = matches!(o, Op::Add(..));
                    let what = if add { "add_funds" } else { "decrease_funds" };
                    let got = op(what, || block_on(async { if add { db.add_funds(&who, &v).await } else { db.decrease_funds(&who, &v).await } }))?;
                    if !open {
                        ensure!(
                            got.is_ok() == new.is_some(),
                            "{what} of {v} with a balance of {:?} was {}",
                            book.get(&who).copied().flatten(),
                            if got.is_ok() { "accepted" } else { "refused" }
                        );
                    }
                    match new {
                        Some(n) => {
                            if !(v.is_zero() && book.get(&who).copied().flatten().is_none()) {
                                book.insert(who, Some(n));
                            }
                            eff += 1;
                        }
                        None => {
                            refused += 1;
                            cx.label("refused");
                        }
                    }
                }
            }
            check(&db, &book, &acc)?;
            must("flush", || block_on(db.flush()))?;
        }
        drop(db);
        check(&open(&dir)?, &book, &acc)?;
        if eff >= 2 && refused >= 1 {
            cx.nontrivial();
        }
        cx.units += c.ops.len() as u64;
        Ok(())
    }
}
