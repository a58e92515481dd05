use super::c16::{some_op, Live, Op};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub struct C31;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Obstacle {
    /// opened again while it is open: 0 as a tree, 1 as a main chain, 2 a derivative chain that is open
    Busy(u8),
    /// the configuration of the main chain, or of a derivative chain, has only its first bytes
    Cut(bool, u8),
    /// the configuration is a directory
    Dir(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    segs: Vec<(Vec<Op>, Obstacle)>,
}

/// What opening says; waits for the store to be released by whoever had it before.
fn attempt(f: impl Fn() -> Result<Result<(), String>, String>) -> Result<Result<(), String>, String> {
    let t = Instant::now();
    loop {
        match f()? {
            Err(e) if e.contains("could not acquire lock") && t.elapsed() < Duration::from_secs(30) => std::thread::sleep(Duration::from_millis(2)),
            r => return Ok(r),
        }
    }
}

/// The configuration file of the main chain or of a derivative chain.
fn config_of(dir: &Path, owner: Option<u8>) -> PathBuf {
    match owner {
        None => main_config(dir),
        Some(o) => dir.join("DERIVATIVES").join(hex::encode(addr(4 + o))).join("Chain.config"),
    }
}

impl Property for C31 {
    type Case = Case;
    const ID: &'static str = "C31";
    fn rule() -> &'static str {
        "1..4 segments of 0..8 operations on a real tree, each followed by an opening that cannot succeed: of a directory that is open (as a tree, main chain or derivative chain), or of one whose main or derivative configuration has been cut to 0..63 (0..95) bytes or replaced by a directory; the opening must be refused without a crash, leave the configuration as it is, and after the obstacle is removed everything is as before and can be extended; non-trivial: the refused opening came after a change"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_500, 40_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let cut = prop_oneof![1 => Just(0u8), 4 => any::<u8>(), 1 => Just(32), 1 => Just(31), 1 => Just(63)];
        let ob = prop_oneof![
            3 => (0u8..3).prop_map(Obstacle::Busy),
            4 => (any::<bool>(), cut).prop_map(|(d, n)| Obstacle::Cut(d, n)),
            1 => any::<bool>().prop_map(Obstacle::Dir),
        ];
        proptest::collection::vec((proptest::collection::vec(some_op(), 0..8), ob), 1..4).prop_map(|segs| Case { segs }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let path = dir.to_str().unwrap().to_string();
        let mut l = Live::open(&dir, &[])?;
        for (ops, ob) in &c.segs {
            for o in ops {
                l.apply(o)?;
            }
            if !ops.is_empty() {
                cx.nontrivial();
            }
            let before = l.snapshot()?;
            match ob {
                Obstacle::Busy(k) => {
                    let owner = l.owners().first().copied();
                    let (what, r) = match (k, owner) {
                        (2, Some(o)) => {
                            cx.label("derivative chain in use");
                            let name = hex::encode(addr(4 + o));
                            ("a derivative chain", op("opening a derivative chain in use", || DerivativeChain::new(&path, &name, &[9; 32]).map(|_| ()))?)
                        }
                        (1, _) => {
                            cx.label("main chain in use");
                            ("the main chain", op("opening a main chain in use", || MainChain::new(&path).map(|_| ()))?)
                        }
                        _ => {
                            cx.label("tree in use");
                            ("the tree", op("opening a tree in use", || BlockChainTree::new(&path).map(|_| ()))?)
                        }
                    };
                    ensure!(r.is_err(), "{what} could be opened a second time while it was open");
                    if let Some(d) = before.differs(&l.snapshot()?) {
                        return Err(format!("a refused second opening of {what} disturbed the open tree: {d}"));
                    }
                    l.flush()?;
                    l = l.reopen(&dir)?;
                }
                Obstacle::Cut(..) | Obstacle::Dir(_) => {
                    let (deriv, cut) = match ob {
                        Obstacle::Cut(d, n) => (*d, Some(*n)),
                        Obstacle::Dir(d) => (*d, None),
                        _ => unreachable!(),
                    };
                    l.flush()?;
                    let owners = l.owners();
                    let owner = if deriv { owners.first().copied() } else { None };
                    drop(l);
                    let config = config_of(&dir, owner);
                    let bytes = std::fs::read(&config).map_err(|e| format!("HARNESS {}: {e}", config.display()))?;
                    let size = if owner.is_some() { 96 } else { 64 };
                    ensure!(bytes.len() >= size, "HARNESS a configuration of {} bytes", bytes.len());
                    let n = cut.unwrap_or(0) as usize % size;
                    match cut {
                        Some(_) => std::fs::write(&config, &bytes[..n]).map_err(|e| format!("HARNESS {e}"))?,
                        None => {
                            std::fs::remove_file(&config).map_err(|e| format!("HARNESS {e}"))?;
                            std::fs::create_dir(&config).map_err(|e| format!("HARNESS {e}"))?;
                        }
                    }
                    let state = if cut.is_some() { format!("cut to {n} bytes") } else { "a directory".to_string() };
                    match owner {
                        None => {
                            cx.label("main configuration damaged");
                            let r = attempt(|| op("opening a tree with a damaged configuration", || BlockChainTree::new(&path).map(|_| ())))?;
                            ensure!(r.is_err(), "a tree whose main configuration is {state} was opened");
                            let r = attempt(|| op("opening a main chain with a damaged configuration", || MainChain::new(&path).map(|_| ())))?;
                            ensure!(r.is_err(), "a main chain whose configuration is {state} was opened");
                        }
                        Some(o) => {
                            cx.label("derivative configuration damaged");
                            let mut t = open_tree(&dir)?;
                            let who = addr(4 + o);
                            let end = Instant::now();
                            loop {
                                match op("opening a derivative chain with a damaged configuration", || t.get_derivative_chain(&who).map(|_| ()))? {
                                    Err(e) if e.contains("could not acquire lock") && end.elapsed() < Duration::from_secs(30) => std::thread::sleep(Duration::from_millis(2)),
                                    Err(_) => break,
                                    Ok(()) => return Err(format!("a derivative chain whose configuration is {state} was opened")),
                                }
                            }
                            // the rest of the tree is not affected
                            let x = Live { t, chains: Default::default(), from: 0 };
                            let now = x.snapshot()?;
                            ensure!(now.main == before.main && now.txs == before.txs && now.funds == before.funds, "a damaged derivative configuration changed the rest of the tree");
                            drop(x);
                        }
                    }
                    if cut.is_some() {
                        let now = std::fs::read(&config).unwrap_or_default();
                        ensure!(now == bytes[..n], "a refused opening wrote the damaged configuration");
                        std::fs::write(&config, &bytes).map_err(|e| format!("HARNESS {e}"))?;
                    } else {
                        std::fs::remove_dir(&config).map_err(|e| format!("a refused opening replaced the damaged configuration: {e}"))?;
                        std::fs::write(&config, &bytes).map_err(|e| format!("HARNESS {e}"))?;
                    }
                    l = Live::open(&dir, &owners)?;
                }
            }
            if let Some(d) = before.differs(&l.snapshot()?) {
                return Err(format!("after a refused opening and then a proper one: {d}"));
            }
            l.apply(&Op::Main { gap: 700, seed: 3 })?;
            cx.units += 1;
        }
        drop(l);
        Ok(())
    }
}
