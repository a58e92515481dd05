use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block::Block;
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::DerivativeChain;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub struct C12;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Open(u8),
    Emit { owner: u8, gap: i64, pow: Pow },
    /// a run of emissions for an owner
    Run(u8, u16),
    Main { gap: i64, seed: u32 },
    /// a run of main blocks
    Grow(u8),
    FlushChain(u8),
    /// flush everything, close, open again
    Reopen,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    /// start this many blocks before an epoch boundary
    #[serde(default)]
    epoch: Option<u8>,
    /// the chain of this owner has reached this height before
    #[serde(default)]
    tall: Option<(u8, N)>,
}

struct Chain {
    anchor: r::H,
    anchor_ts: u64,
    /// height of the first block known to the model
    from: U256,
    blocks: Vec<Vec<u8>>,
    last: Option<(r::H, r::H, u64)>, // hash, difficulty, timestamp
    handles: Vec<DerivativeChain>,
}

impl Chain {
    fn next(&self) -> U256 {
        self.from + self.blocks.len()
    }
}

/// Owners include addresses whose hexadecimal names share prefixes.
fn owner(i: u8) -> Addr {
    let mut a = addr(4 + i / 2);
    match i {
        1 => a[32] ^= 1,
        3 => a[0] ^= 1,
        5 => a[16] ^= 0x10,
        _ => {}
    }
    a
}

/// One main block (a summary block at a boundary), if its emission is accepted.
fn main_block(t: &mut BlockChainTree, gap: i64, seed: u32) -> Result<Option<Vec<u8>>, String> {
    let last = must("last block", || t.get_main_chain().get_last_block())?.ok_or("no last block")?;
    let i = last.get_info();
    let boundary = ((i.height + 1) % 1_000_000).is_zero();
    let txs: &[r::H] = if boundary { &[] } else { &[[5; 32]] };
    let ts = add_gap(i.timestamp, eased(gap, r::leading_zero_bits(&i.difficulty)));
    let n = r::mine(&must("hash", || last.hash())?, &i.difficulty, txs, seed as u64, true);
    Ok(match emit_main(t, &n, &addr(1), txs, ts)? {
        Ok(b) => Some(must("dump", || b.dump())?),
        Err(_) => None,
    })
}

/// One emission for an owner, compared with the model.
fn emit(t: &mut BlockChainTree, ch: &mut Chain, o: u8, gap: i64, pow: &Pow, cx: &mut Cx) -> Result<(), String> {
    let (prev, diff, ts0) = ch.last.unwrap_or((ch.anchor, r::difficulty_of(1), ch.anchor_ts));
    let ts = add_gap(ts0, eased(gap, r::leading_zero_bits(&diff)));
    let (n, ok) = nonce(pow, &prev, &ch.anchor, &diff, &[]);
    match emit_deriv(t, &n, &owner(o), ts)? {
        Err(e) => {
            ensure!(!ok, "a derivative block with a sufficient nonce was refused: {}", e.lines().next().unwrap_or(""));
            cx.label("refused");
        }
        Ok(b) => {
            ensure!(ok, "a derivative block was emitted with an insufficient nonce");
            cx.label("emitted");
            let i = b.get_info();
            ensure!(b.get_type() as u8 == 3, "wrong kind");
            ensure!(i.height == ch.next(), "emitted at height {}, expected {}", i.height, ch.next());
            ensure!(i.previous_hash == prev, "the emitted block does not link to {}", if ch.last.is_none() { "the anchor" } else { "its predecessor" });
            ensure!(i.founder == owner(o) && i.pow == n && i.timestamp == ts, "founder, nonce or timestamp differ from those given");
            let want = r::retarget(&diff, ts0, ts).ok_or("HARNESS difficulty")?;
            ensure!(i.difficulty == want, "difficulty {} after {} with timestamps {ts0} -> {ts}", hex::encode(i.difficulty), hex::encode(diff));
            let raw = must("dump", || b.dump())?;
            ch.last = Some((r::sha(&raw), want, ts));
            ch.blocks.push(raw);
        }
    }
    Ok(())
}

fn check(t: &BlockChainTree, main: &[Vec<u8>], from: u64, chains: &BTreeMap<u8, Chain>) -> Result<(), String> {
    ensure!(main_blocks(&t.get_main_chain(), from)? == main, "the main chain changed");
    for (o, c) in chains {
        for h in &c.handles {
            ensure!(*h.genesis_hash == c.anchor, "owner {o}: the anchor changed");
            let height = guard(|| h.get_height())?;
            ensure!(height == c.next(), "owner {o}: the chain has height {height}, expected {}", c.next());
            // of long chains, the blocks of both ends
            for (i, b) in c.blocks.iter().enumerate().filter(|(i, _)| *i < 8 || i + 32 >= c.blocks.len()) {
                let got = must("find_raw_by_height", || h.find_raw_by_height(&(c.from + i)))?;
                ensure!(got.as_ref() == Some(b), "owner {o}: the block at height {} is missing or has other content", c.from + i);
            }
            let last = must("get_last_raw_block", || h.get_last_raw_block())?;
            ensure!(last.as_ref() == c.blocks.last(), "owner {o}: wrong last block");
            ensure!(must("find_raw_by_height", || h.find_raw_by_height(&c.next()))?.is_none(), "owner {o}: a block beyond the height");
        }
    }
    Ok(())
}

impl Property for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    fn rule() -> &'static str {
        "histories of 1..30 steps over 6 owners (some differing in one bit): opening, emitting with sufficient / insufficient / misdirected nonces and gaps around 600 s, main-chain growth (single blocks and runs of up to 255, one case in four across an epoch boundary), runs of up to 300 emissions, one case in seven with a chain that has already reached a large height (around powers of 256 and of two, or any), flushing a chain, flushing and reopening everything; after every step all chains and handles compared with the model; non-trivial: at least two owners with blocks, or an owner with three blocks, and main-chain growth after an anchor was taken"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4_000, 80_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            1 => (0u8..6).prop_map(Op::Open),
            12 => (prop_oneof![2 => 0u8..2, 2 => 2u8..4, 2 => 0u8..6], gap(), pow(12)).prop_map(|(owner, gap, pow)| Op::Emit { owner, gap, pow }),
            4 => (gap(), any::<u32>()).prop_map(|(gap, seed)| Op::Main { gap, seed }),
            1 => prop_oneof![6 => 1u8..16, 1 => 1u8..=255].prop_map(Op::Grow),
            1 => (0u8..6, prop_oneof![60 => 1u16..8, 1 => 240u16..300]).prop_map(|(o, n)| Op::Run(o, n)),
            1 => (0u8..6).prop_map(Op::FlushChain),
            1 => Just(Op::Reopen),
        ];
        (proptest::collection::vec(op, 1..30), proptest::option::weighted(0.25, 0u8..4), proptest::option::weighted(0.15, (0u8..6, tall_height()))).prop_map(|(ops, epoch, tall)| Case { ops, epoch, tall }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let mut t = open_tree(&dir)?;
        let mut from = 0;
        if let Some(k) = &c.epoch {
            must("flush", || block_on(t.flush()))?;
            drop(t);
            from = 999_999 - *k as u64;
            fast_forward(&main_config(&dir), 1.into(), from.into())?;
            t = open_tree(&dir)?;
            let i = blockchaintree::block::BasicInfo::new(10_000, [7; 32], [8; 32], from.into(), r::difficulty_of(2 + *k as u32), addr(5));
            let b = blockchaintree::block::TransactionBlock::new(1.into(), i, [0; 32], vec![[1; 32]]);
            must("add_block", || t.get_main_chain().add_block(std::sync::Arc::new(b)))?;
            cx.label("near an epoch boundary");
        }
        let mut main = main_blocks(&t.get_main_chain(), from)?;
        let mut chains: BTreeMap<u8, Chain> = BTreeMap::new();
        let mut grew_after = false;
        fn open(t: &mut BlockChainTree, chains: &mut BTreeMap<u8, Chain>, o: u8) -> Result<(), String> {
            let last = must("last block", || t.get_main_chain().get_last_block())?.ok_or("no last block")?;
            let h = tree_deriv(t, &owner(o))?;
            match chains.get_mut(&o) {
                Some(c) => {
                    if c.handles.len() < 3 {
                        c.handles.push(h);
                    }
                }
                None => {
                    let want = must("hash", || last.hash())?;
                    ensure!(*h.genesis_hash == want, "a new derivative chain is not anchored at the last main block");
                    ensure!(guard(|| h.get_height())?.is_zero(), "a new derivative chain is not empty");
                    chains.insert(o, Chain { anchor: want, anchor_ts: last.get_info().timestamp, from: 0.into(), blocks: vec![], last: None, handles: vec![h] });
                }
            }
            Ok(())
        }
        if let Some((o, h)) = &c.tall {
            open(&mut t, &mut chains, *o)?;
            let ch = chains.get_mut(o).unwrap();
            must("flush", || block_on(t.flush()))?;
            must("flush", || block_on(ch.handles[0].flush()))?;
            ch.handles.clear();
            drop(t);
            let h = h.0;
            let root = dir.join("DERIVATIVES").join(hex::encode(owner(*o)));
            fast_forward(&root.join("Chain.config"), 0.into(), h)?;
            t = open_tree(&dir)?;
            let hd = tree_deriv(&mut t, &owner(*o))?;
            let d = r::difficulty_of(2);
            let i = blockchaintree::block::BasicInfo::new(20_000, [7; 32], [8; 32], h, d, owner(*o));
            let b = blockchaintree::block::DerivativeBlock { default_info: i };
            let raw = must("dump", || b.dump())?;
            must("add_block", || hd.add_block(&b))?;
            ch.from = h;
            ch.last = Some((r::sha(&raw), d, 20_000));
            ch.blocks.push(raw);
            ch.handles.push(hd);
            cx.label("a tall chain");
        }
        for o in &c.ops {
            match o {
                Op::Open(o) => open(&mut t, &mut chains, *o)?,
                Op::Emit { owner: o, gap, pow } => {
                    open(&mut t, &mut chains, *o)?;
                    emit(&mut t, chains.get_mut(o).unwrap(), *o, *gap, pow, cx)?;
                }
                Op::Run(o, n) => {
                    open(&mut t, &mut chains, *o)?;
                    for k in 0..*n {
                        emit(&mut t, chains.get_mut(o).unwrap(), *o, 700, &Pow::Good(k as u32), cx)?;
                    }
                }
                Op::Main { gap, seed } => {
                    if let Some(b) = main_block(&mut t, *gap, *seed)? {
                        main.push(b);
                        grew_after |= !chains.is_empty();
                    }
                }
                Op::Grow(n) => {
                    for k in 0..*n {
                        if let Some(b) = main_block(&mut t, 700, k as u32)? {
                            main.push(b);
                            grew_after |= !chains.is_empty();
                        }
                    }
                }
                Op::FlushChain(o) => {
                    if let Some(ch) = chains.get(o) {
                        must("flush", || block_on(ch.handles[0].flush()))?;
                    }
                }
                Op::Reopen => {
                    must("flush", || block_on(t.flush()))?;
                    for ch in chains.values_mut() {
                        must("flush", || block_on(ch.handles[0].flush()))?;
                        ch.handles.clear();
                    }
                    drop(t);
                    t = open_tree(&dir)?;
                    let known: Vec<u8> = chains.keys().copied().collect();
                    for o in known {
                        open(&mut t, &mut chains, o)?;
                    }
                    cx.label("reopened");
                }
            }
            check(&t, &main, from, &chains)?;
        }
        let with = chains.values().filter(|c| !c.blocks.is_empty()).count();
        if (with >= 2 || chains.values().any(|c| c.blocks.len() >= 3)) && grew_after {
            cx.nontrivial();
        }
        Ok(())
    }
}
