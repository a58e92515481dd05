use super::c01::{info, Info};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block::{self, BlockArc};
use blockchaintree::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub struct C10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Blk {
    /// 0 transaction, 1 summary, 2 derivative
    kind: u8,
    info: Info,
    root: B,
    fee: N,
    txs: Hashes,
}
impl Blk {
    fn build(&self, info: block::BasicInfo, root: r::H, txs: Vec<r::H>) -> BlockArc {
        match self.kind % 3 {
            0 => Arc::new(block::TransactionBlock::new(self.fee.0, info, root, txs)),
            1 => Arc::new(block::SummarizeBlock { default_info: info, merkle_tree_root: root }),
            _ => Arc::new(block::DerivativeBlock { default_info: info }),
        }
    }
}
fn blk() -> BoxedStrategy<Blk> {
    (0u8..3, info(), arr(32), num(), hashes_rare(20, 5000, 400, 20_000)).prop_map(|(kind, info, root, fee, txs)| Blk { kind, info, root, fee, txs }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Flaw {
    None,
    PrevBit(u8),
    Prev(B),
    /// the predecessor's own predecessor, its Merkle root, or the successor's own
    PrevOther(u8),
    DiffSame,
    DiffBit(u8),
    Diff(B),
    DiffZeros(i8),
    Time(i64),
    Pow(Pow),
    /// enough for the successor's difficulty only
    PowOwnDiff(u32),
    Root(B),
    RootBit(u8),
    TxAdd(B),
    TxDrop(u16),
    TxSwap(u16, u16),
    TxBit(u16, u8),
    TxDup(u16),
    /// the list is edited and root and nonce are made to match: still honest
    Remade(u16),
}
fn flaw() -> BoxedStrategy<Flaw> {
    prop_oneof![
        8 => Just(Flaw::None),
        1 => any::<u8>().prop_map(Flaw::PrevBit),
        1 => arr(32).prop_map(Flaw::Prev),
        1 => (0u8..3).prop_map(Flaw::PrevOther),
        2 => Just(Flaw::DiffSame),
        2 => any::<u8>().prop_map(Flaw::DiffBit),
        1 => arr(32).prop_map(Flaw::Diff),
        2 => (-2i8..=2).prop_map(Flaw::DiffZeros),
        2 => gap().prop_map(Flaw::Time),
        5 => pow(0).prop_map(Flaw::Pow),
        1 => any::<u32>().prop_map(Flaw::PowOwnDiff),
        1 => arr(32).prop_map(Flaw::Root),
        1 => any::<u8>().prop_map(Flaw::RootBit),
        1 => arr(32).prop_map(Flaw::TxAdd),
        1 => any::<u16>().prop_map(Flaw::TxDrop),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Flaw::TxSwap(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Flaw::TxBit(a, b)),
        1 => any::<u16>().prop_map(Flaw::TxDup),
        1 => any::<u16>().prop_map(Flaw::Remade),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Pair { prev: Blk, zeros: Option<u8>, next: Blk, gap: i64, start: u32, flaws: Vec<Flaw> },
    Emitted { steps: Vec<(u8, i64, u32)>, near_epoch: bool },
}

fn bit(h: &mut r::H, i: u8) {
    h[i as usize / 8] ^= 0x80 >> (i % 8);
}

impl Property for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    fn rule() -> &'static str {
        "a predecessor of any kind with random fields and a difficulty of 1..11 reachable zero bits (or an arbitrary one), a successor of any kind (usually up to 20 transactions, one in 400 up to 5000, one in 20,000 up to 45,000) built honestly (mined nonce, retargeted difficulty, Merkle root) with 0..2 flaws out of 19 kinds, expected verdict computed from the definition; plus chains emitted by a real tree (main, derivative, across an epoch boundary) validated block by block; non-trivial: an honest block, or a single flaw that leaves the other conditions true"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(180_000, 3_600_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let flaws = prop_oneof![6 => flaw().prop_map(|f| vec![f]), 1 => proptest::collection::vec(flaw(), 2)];
        let pair = (blk(), prop_oneof![9 => (1u8..=10).prop_map(Some), 1 => Just(None)], blk(), gap(), any::<u32>(), flaws)
            .prop_map(|(prev, zeros, next, gap, start, flaws)| Case::Pair { prev, zeros, next, gap, start, flaws });
        prop_oneof![
            120 => pair,
            1 => (proptest::collection::vec((0u8..4, gap(), any::<u32>()), 1..8), any::<bool>()).prop_map(|(steps, near_epoch)| Case::Emitted { steps, near_epoch }),
        ]
        .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match c {
            Case::Emitted { steps, near_epoch } => emitted(steps, *near_epoch, cx),
            Case::Pair { prev, zeros, next, gap, start, flaws } => {
                let mut pi = prev.info.lib();
                if let Some(z) = zeros {
                    pi.difficulty = r::difficulty_of(*z as u32);
                }
                let pd = pi.difficulty;
                let minable = r::leading_zero_bits(&pd) <= MINE_MAX;
                let pb = prev.build(pi.clone(), prev.root.a(), prev.txs.list());
                let ph = r::sha(&must("dump", || pb.dump())?);
                let pts = pi.timestamp;
                let retarget = |ts: u64| -> Result<r::H, String> {
                    match r::retarget(&pd, pts, ts) {
                        Some(d) => Ok(d),
                        // not a difficulty of a chain: the direction rules of C09 apply, the value is the library's
                        None => {
                            let mut d = pd;
                            guard(|| tools::recalculate_difficulty(pts, ts, &mut d))?;
                            Ok(d)
                        }
                    }
                };
                let is_tx = next.kind % 3 == 0;
                let mut txs = if is_tx { next.txs.list() } else { vec![] };
                let mut i = next.info.lib();
                i.timestamp = add_gap(pts, *gap);
                i.previous_hash = ph;
                i.difficulty = retarget(i.timestamp)?;
                let mut root = if is_tx { r::merkle_root(&txs) } else { next.root.a() };
                i.pow = if minable { r::mine(&ph, &pd, &txs, *start as u64, true) } else { next.info.pow.a() };
                for f in flaws {
                    match f {
                        Flaw::None => {}
                        Flaw::PrevBit(k) => bit(&mut i.previous_hash, *k),
                        Flaw::Prev(b) => i.previous_hash = b.a(),
                        Flaw::PrevOther(k) => {
                            i.previous_hash = match k {
                                0 => pi.previous_hash,
                                1 => prev.root.a(),
                                _ => root,
                            }
                        }
                        Flaw::DiffSame => i.difficulty = pd,
                        Flaw::DiffBit(k) => bit(&mut i.difficulty, *k),
                        Flaw::Diff(b) => i.difficulty = b.a(),
                        Flaw::DiffZeros(k) => i.difficulty = r::difficulty_of((r::leading_zero_bits(&pd) as i32 + *k as i32).clamp(0, 256) as u32),
                        Flaw::Time(g) => i.timestamp = add_gap(pts, *g),
                        Flaw::Pow(p) => i.pow = nonce(p, &ph, &pi.previous_hash, &pd, &txs).0,
                        Flaw::PowOwnDiff(s) => {
                            if r::leading_zero_bits(&i.difficulty) <= MINE_MAX + 1 {
                                i.pow = r::mine(&ph, &i.difficulty, &txs, *s as u64, true);
                            }
                        }
                        Flaw::Root(b) => root = b.a(),
                        Flaw::RootBit(k) => bit(&mut root, *k),
                        Flaw::TxAdd(b) if is_tx => txs.push(b.a()),
                        Flaw::TxDrop(k) if !txs.is_empty() => {
                            let n = txs.len();
                            txs.remove(*k as usize % n);
                        }
                        Flaw::TxSwap(a, b) if !txs.is_empty() => {
                            let n = txs.len();
                            txs.swap(*a as usize % n, *b as usize % n);
                        }
                        Flaw::TxBit(a, b) if !txs.is_empty() => {
                            let n = txs.len();
                            bit(&mut txs[*a as usize % n], *b);
                        }
                        Flaw::TxDup(a) if !txs.is_empty() => {
                            let n = txs.len();
                            let t = txs[*a as usize % n];
                            txs.push(t);
                        }
                        Flaw::Remade(a) if is_tx && minable => {
                            txs.truncate(*a as usize % (txs.len() + 1));
                            root = r::merkle_root(&txs);
                            i.pow = r::mine(&ph, &pd, &txs, *a as u64, true);
                        }
                        _ => {}
                    }
                }
                let link = i.previous_hash == ph;
                let diff_ok = i.difficulty == retarget(i.timestamp)?;
                let pow_ok = r::pow_ok(&ph, &pd, &txs, &i.pow);
                let root_ok = !is_tx || root == r::merkle_root(&txs);
                let expect = link && diff_ok && pow_ok && root_ok;
                let failing = [link, diff_ok, pow_ok, root_ok].iter().filter(|x| !**x).count();
                if failing <= 1 {
                    cx.nontrivial();
                }
                cx.label(match (link, diff_ok, pow_ok, root_ok) {
                    (true, true, true, true) => "valid successor",
                    (false, true, true, true) => "only the link is wrong",
                    (true, false, true, true) => "only the difficulty is wrong",
                    (true, true, false, true) => "only the nonce is wrong",
                    (true, true, true, false) => "only the Merkle root is wrong",
                    _ => "several conditions fail",
                });
                let named = i.previous_hash;
                let b = next.build(i, root, txs);
                let got = match op("validate", || b.validate(Some(pb.clone())))? {
                    Ok(v) => v,
                    Err(e) => return Err(format!("validation failed with an error: {}", e.lines().next().unwrap_or(""))),
                };
                ensure!(
                    got == expect,
                    "a {} block over a {} block was reported {}; link {link}, difficulty {diff_ok}, nonce {pow_ok}, Merkle root {root_ok}",
                    ["transaction", "summary", "derivative"][next.kind as usize % 3],
                    ["transaction", "summary", "derivative"][prev.kind as usize % 3],
                    if got { "valid" } else { "invalid" }
                );
                ensure!(matches!(op("validate", || b.validate(None))?, Ok(true)), "a block without predecessor was not accepted");
                ensure!(matches!(op("validate", || pb.validate(None))?, Ok(true)), "a block without predecessor was not accepted");
                for h in [&ph, &named, &pi.previous_hash] {
                    let v = guard(|| b.verify_block(h))?;
                    ensure!(v == (*h == named), "the link check says {v} for {}, the block names {}", hex::encode(h), hex::encode(named));
                }
                Ok(())
            }
        }
    }
}

fn emitted(steps: &[(u8, i64, u32)], near_epoch: bool, cx: &mut Cx) -> Result<(), String> {
    cx.label(if near_epoch { "emitted chain across an epoch boundary" } else { "emitted chain" });
    cx.nontrivial();
    let dir = cx.dir();
    let mut t = open_tree(&dir)?;
    if near_epoch {
        must("flush", || block_on(t.flush()))?;
        drop(t);
        fast_forward(&main_config(&dir), 1.into(), 999_998u64.into())?;
        t = open_tree(&dir)?;
        let i = block::BasicInfo::new(1_700_000_000, [0; 32], [0; 32], 999_998u64.into(), r::difficulty_of(3), addr(5));
        must("add_block", || t.get_main_chain().add_block(Arc::new(block::TransactionBlock::new(1.into(), i, [0; 32], vec![]))))?;
    }
    let mut last = must("last block", || t.get_main_chain().get_last_block())?.ok_or("no last block")?;
    let mut lastd: Option<BlockArc> = None;
    for (k, g, s) in steps {
        let f = addr(6);
        if *k < 3 {
            let boundary = ((last.get_info().height + 1) % 1_000_000u64).is_zero();
            let txs: Vec<r::H> = if boundary { vec![] } else { (0..=*k).map(|x| r::sha(&[x, *s as u8])).collect() };
            let li = last.get_info().clone();
            let ts = add_gap(li.timestamp, eased(*g, r::leading_zero_bits(&li.difficulty)));
            let h = must("hash", || last.hash())?;
            let n = r::mine(&h, &li.difficulty, &txs, *s as u64, true);
            let b = match emit_main(&mut t, &n, &f, &txs, ts)? {
                Ok(b) => b,
                Err(e) => return Err(format!("a block with a sufficient nonce was refused: {}", e.lines().next().unwrap_or(""))),
            };
            let v = must("validate", || b.validate(Some(last.clone())))?;
            ensure!(v, "an emitted main block (boundary: {boundary}) is not valid after its parent");
            last = b;
        } else {
            let (h, d, ts0) = match &lastd {
                Some(b) => (must("hash", || b.hash())?, b.get_info().difficulty, b.get_info().timestamp),
                None => {
                    let c = tree_deriv(&mut t, &f)?;
                    let a = must("anchor", || t.get_main_chain().find_by_hash(&c.genesis_hash))?.ok_or("the anchor is not on the main chain")?;
                    (*c.genesis_hash, r::difficulty_of(1), a.get_info().timestamp)
                }
            };
            let ts = add_gap(ts0, eased(*g, r::leading_zero_bits(&d)));
            let n = r::mine(&h, &d, &[], *s as u64, true);
            let b = match emit_deriv(&mut t, &n, &f, ts)? {
                Ok(b) => b,
                Err(e) => return Err(format!("a derivative block with a sufficient nonce was refused: {}", e.lines().next().unwrap_or(""))),
            };
            let v = must("validate", || b.validate(lastd.clone()))?;
            ensure!(v, "an emitted derivative block is not valid after its parent");
            lastd = Some(b);
        }
        cx.units += 1;
    }
    Ok(())
}
