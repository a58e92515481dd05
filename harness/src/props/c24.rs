use super::c16::{some_op, Live, Op};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C24;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    Tree,
    MainChain,
    /// main chain first, flushed or not, then the tree in the same place
    Both(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    how: How,
    /// path below the scratch directory
    path: Vec<String>,
    ops: Vec<(Op, bool)>,
    founder: u8,
    gap: i64,
    probe: Vec<B>,
}

const ROOT: &str = "031b84c5567b126440995d3ed5aaba0565d71e1834604819ff9c17f5e9d5dd078f";
const GENESIS_HASH: &str = "c06f59eb3e3ee9770dcf346fcf918da19577263d5ae7dc5c79881ca40365031d";

/// The first block, checked field by field; its bytes.
fn genesis(c: &blockchaintree::chain::MainChain) -> Result<Vec<u8>, String> {
    let zero = U256::zero();
    let raw = must("find_raw_by_height", || c.find_raw_by_height(&zero))?.ok_or("there is no block at height zero")?;
    let b = must("find_by_height", || c.find_by_height(&zero))?.ok_or("there is no block at height zero")?;
    let i = b.get_info();
    let root: Addr = hex::decode(ROOT).unwrap().try_into().unwrap();
    ensure!(b.get_type() as u8 == 4, "the genesis block is not a summary block");
    ensure!(i.timestamp == 1_597_924_800, "the genesis block has timestamp {}", i.timestamp);
    ensure!(i.difficulty == r::difficulty_of(1), "the genesis block has another difficulty");
    ensure!(i.founder == root, "the genesis block has another founder");
    ensure!(i.previous_hash == [0; 32] && i.height.is_zero(), "the genesis block has a parent or a height");
    ensure!(b.get_merkle_root() == r::genesis_root(), "the genesis block does not commit to the root account with the full cycle amount");
    let p = must("parse", || block::SummarizeBlock::parse(&raw[1..]))?;
    ensure!(raw[0] == 4 && p.default_info.pow == i.pow, "the raw genesis block is not the decoded one");
    ensure!(hex::encode(r::sha(&raw)) == GENESIS_HASH, "the genesis block has hash {}", hex::encode(r::sha(&raw)));
    ensure!(must("hash", || b.hash())? == r::sha(&raw), "the genesis block reports another hash");
    ensure!(must("find_raw_by_hash", || c.find_raw_by_hash(&r::sha(&raw)))?.as_ref() == Some(&raw), "the genesis block is not found under its hash");
    Ok(raw)
}

impl Property for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    fn rule() -> &'static str {
        "fresh directories with random names (spaces, non-ASCII, several levels, trailing separators excluded) opened as a tree, a main chain or one after the other; genesis fields, bytes and hash, height, root funds and the absence of other funds checked, also in the stores on disk; then histories of 0..12 operations with flushes and reopens after which the genesis block must be the same; non-trivial: at least one block emitted"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_500, 40_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let how = prop_oneof![4 => Just(How::Tree), 1 => Just(How::MainChain), 2 => any::<bool>().prop_map(How::Both)];
        let name = prop_oneof![3 => "[a-zA-Z0-9_.-]{1,12}", 1 => "[ a-zéß漢🦀]{1,6}", 1 => "MAIN|SUMMARY|DERIVATIVES|BLOCKS"].prop_filter("dots", |s: &String| s != "." && s != ".." && !s.trim().is_empty());
        (how, proptest::collection::vec(name, 0..4), proptest::collection::vec((some_op(), any::<bool>()), 0..12), 0u8..8, gap(), proptest::collection::vec(arr(33), 3))
            .prop_map(|(how, path, ops, founder, gap, probe)| Case { how, path, ops, founder, gap, probe })
            .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut dir = cx.dir();
        for p in &c.path {
            dir = dir.join(p);
        }
        std::fs::create_dir_all(&dir).map_err(|e| format!("HARNESS {e}"))?;
        let first;
        match &c.how {
            How::Tree => {
                let t = open_tree(&dir)?;
                first = genesis(&t.get_main_chain())?;
                ensure!(guard(|| t.get_main_chain().get_height())? == U256::one(), "a fresh tree does not have height one");
                cx.label("tree");
            }
            How::MainChain | How::Both(_) => {
                let m = open_main(&dir)?;
                first = genesis(&m)?;
                ensure!(guard(|| m.get_height())? == U256::one(), "a fresh main chain does not have height one");
                let last = must("get_last_raw_block", || m.get_last_raw_block())?;
                ensure!(last.as_ref() == Some(&first), "the last block of a fresh main chain is not the genesis block");
                if let How::Both(flush) = c.how {
                    if flush {
                        must("flush", || block_on(m.flush()))?;
                    }
                    cx.label("main chain, then tree");
                } else {
                    cx.label("main chain");
                    return Ok(());
                }
            }
        }
        // a fresh tree again, never flushed so far as a whole
        let t = open_tree(&dir)?;
        ensure!(genesis(&t.get_main_chain())? == first, "the genesis block changed on reopening");
        let root: Addr = hex::decode(ROOT).unwrap().try_into().unwrap();
        let mut others: Vec<Addr> = (1..8).map(addr).collect();
        others.extend(c.probe.iter().map(|b| b.a::<33>()));
        ensure!(must("get_amount", || t.get_amount(&root))? == r::cycle(), "the root account starts with other than the cycle amount");
        ensure!(must("get_gas", || t.get_gas(&root))?.is_zero(), "the root account starts with gas");
        for a in others.iter().filter(|a| **a != root) {
            ensure!(must("get_amount", || t.get_amount(a))?.is_zero() && must("get_gas", || t.get_gas(a))?.is_zero(), "another account starts with funds");
        }
        must("flush", || block_on(t.flush()))?;
        drop(t);
        // nothing else is on disk either
        for (name, want) in [("SUMMARY", vec![(root.to_vec(), r::enc_u256(&r::cycle()))]), ("GASSUMMARY", vec![]), ("SUMMARYOLD", vec![]), ("GASSUMMARYOLD", vec![])] {
            let db = open_sled(&dir.join(name))?;
            let got: Vec<(Vec<u8>, Vec<u8>)> = db.iter().filter_map(|e| e.ok()).map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
            // records of zero are no funds
            let got: Vec<_> = got.into_iter().filter(|(_, v)| !v.iter().all(|x| *x == 0)).collect();
            ensure!(got == want, "the {name} store of a fresh tree holds {} records, expected {}", got.len(), want.len());
        }
        // the first emitted block
        let mut l = Live::open(&dir, &[])?;
        let ts = add_gap(1_597_924_800, c.gap);
        let gh = r::sha(&first);
        let n = r::mine(&gh, &r::difficulty_of(1), &[[9; 32]], 5, true);
        let mut emitted = false;
        for (o, reopen) in &c.ops {
            if matches!(o, Op::Main { .. }) && !emitted {
                match emit_main(&mut l.t, &n, &addr(c.founder), &[[9; 32]], ts)? {
                    Ok(b) => {
                        ensure!(b.get_info().previous_hash == gh && b.get_info().height == U256::one(), "the first emitted block does not follow the genesis block");
                        emitted = true;
                        cx.nontrivial();
                    }
                    Err(e) => return Err(format!("the first block was refused: {}", e.lines().next().unwrap_or(""))),
                }
            } else {
                l.apply(o)?;
            }
            if *reopen {
                l.flush()?;
                l = l.reopen(&dir)?;
            }
            ensure!(genesis(&l.t.get_main_chain())? == first, "the genesis block changed");
        }
        cx.units += 1;
        Ok(())
    }
}
