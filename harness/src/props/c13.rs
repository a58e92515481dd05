use super::c01::{info, Info};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block::{self, Block, BlockArc};
use blockchaintree::chain::{DerivativeChain, MainChain};
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::Path;
use std::sync::Arc;

/// Main and derivative chains behind one interface.
pub enum Any {
    Main(MainChain),
    Deriv(DerivativeChain),
}
impl Any {
    pub fn height(&self) -> Result<U256, String> {
        match self {
            Any::Main(c) => guard(|| c.get_height()),
            Any::Deriv(c) => guard(|| c.get_height()),
        }
    }
    fn raw_at(&self, h: &U256) -> Result<Option<Vec<u8>>, String> {
        match self {
            Any::Main(c) => must("find_raw_by_height", || c.find_raw_by_height(h)),
            Any::Deriv(c) => must("find_raw_by_height", || c.find_raw_by_height(h)),
        }
    }
    fn at(&self, h: &U256) -> Result<Option<Vec<u8>>, String> {
        let b = match self {
            Any::Main(c) => must("find_by_height", || c.find_by_height(h))?.map(|b| b.dump()),
            Any::Deriv(c) => must("find_by_height", || c.find_by_height(h))?.map(|b| b.dump()),
        };
        b.transpose().map_err(|e| format!("{e:?}"))
    }
    fn raw_of(&self, h: &r::H) -> Result<Option<Vec<u8>>, String> {
        match self {
            Any::Main(c) => must("find_raw_by_hash", || c.find_raw_by_hash(h)),
            Any::Deriv(c) => must("find_raw_by_hash", || c.find_raw_by_hash(h)),
        }
    }
    fn of(&self, h: &r::H) -> Result<Option<Vec<u8>>, String> {
        let b = match self {
            Any::Main(c) => must("find_by_hash", || c.find_by_hash(h))?.map(|b| b.dump()),
            Any::Deriv(c) => must("find_by_hash", || c.find_by_hash(h))?.map(|b| b.dump()),
        };
        b.transpose().map_err(|e| format!("{e:?}"))
    }
    fn last_raw(&self) -> Result<Option<Vec<u8>>, String> {
        match self {
            Any::Main(c) => must("get_last_raw_block", || c.get_last_raw_block()),
            Any::Deriv(c) => must("get_last_raw_block", || c.get_last_raw_block()),
        }
    }
    fn last(&self) -> Result<Option<Vec<u8>>, String> {
        let b = match self {
            Any::Main(c) => must("get_last_block", || c.get_last_block())?.map(|b| b.dump()),
            Any::Deriv(c) => must("get_last_block", || c.get_last_block())?.map(|b| b.dump()),
        };
        b.transpose().map_err(|e| format!("{e:?}"))
    }
    pub fn flush(&self) -> Result<(), String> {
        match self {
            Any::Main(c) => must("flush", || block_on(c.flush())),
            Any::Deriv(c) => must("flush", || block_on(c.flush())),
        }
    }
    fn dup(&self) -> Any {
        match self {
            Any::Main(c) => Any::Main(c.clone()),
            Any::Deriv(c) => Any::Deriv(c.clone()),
        }
    }
    /// Appends the block with this encoding.
    fn append_raw(&self, raw: &[u8]) -> Result<Result<(), String>, String> {
        match self {
            Any::Main(c) => {
                let b = must("decode", || block::deserialize_main_chain_block(raw))?;
                op("add_block", || c.add_block(b))
            }
            Any::Deriv(c) => {
                let b = must("decode", || block::DerivativeBlock::parse(&raw[1..]))?;
                op("add_block", || c.add_block(&b))
            }
        }
    }
    fn append(&self, kind: u8, i: block::BasicInfo, fee: U256, txs: Vec<r::H>) -> Result<(Result<(), String>, Vec<u8>), String> {
        match self {
            Any::Main(c) => {
                let b: BlockArc = if kind % 3 == 0 {
                    Arc::new(block::SummarizeBlock { default_info: i, merkle_tree_root: r::merkle_root(&txs) })
                } else {
                    Arc::new(block::TransactionBlock::new(fee, i, r::merkle_root(&txs), txs))
                };
                let raw = must("dump", || b.dump())?;
                Ok((op("add_block", || c.add_block(b))?, raw))
            }
            Any::Deriv(c) => {
                let b = block::DerivativeBlock { default_info: i };
                let raw = must("dump", || b.dump())?;
                Ok((op("add_block", || c.add_block(&b))?, raw))
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Append { kind: u8, info: Info, fee: N, txs: Hashes },
    /// a run of appends
    Bulk(u16, u64),
    /// a block whose height is off
    Wrong { info: Info, off: i8, any: bool },
    /// append the last block again
    Again,
    /// append a block of the chain again, exactly as it is
    Repeat(u16),
    /// append a block that was lost, if its height fits
    Lost(u8),
    Flush,
    Reopen { flush: bool },
    Look(B, N),
    Handle,
}
pub fn ops(max: usize, bulk: u16, large: bool) -> BoxedStrategy<Vec<Op>> {
    let txs = if large { hashes_rare(12, 4000, 150, 4000) } else { hashes(12) };
    let op = prop_oneof![
        10 => (0u8..3, info(), num(), txs).prop_map(|(kind, info, fee, txs)| Op::Append { kind, info, fee, txs }),
        1 => (1..=bulk, any::<u64>()).prop_map(|(n, s)| Op::Bulk(n, s)),
        3 => (info(), -3i8..=3, any::<bool>()).prop_map(|(info, off, any)| Op::Wrong { info, off, any }),
        1 => Just(Op::Again),
        2 => any::<u16>().prop_map(Op::Repeat),
        1 => any::<u8>().prop_map(Op::Lost),
        2 => Just(Op::Flush),
        2 => any::<bool>().prop_map(|flush| Op::Reopen { flush }),
        2 => (arr(32), num()).prop_map(|(b, n)| Op::Look(b, n)),
        1 => Just(Op::Handle),
    ];
    proptest::collection::vec(op, 1..max).boxed()
}

/// The model of one chain.
pub struct World {
    pub chain: Option<Any>,
    others: Vec<Any>,
    pub blocks: BTreeMap<U256, Vec<u8>>,
    pub height: U256,
    /// lower bound on the height after an unflushed close
    pub flushed: U256,
    /// genesis is made again on opening (main chain)
    pub base: U256,
    ids: HashSet<r::H>,
    lost: Vec<Vec<u8>>,
    refused: Vec<Vec<u8>>,
    pub stats: (u32, u32, u32), // appended, refused, lost
}

impl World {
    pub fn new(chain: Any, base: U256) -> Result<World, String> {
        let mut blocks = BTreeMap::new();
        let height = chain.height()?;
        ensure!(height == base, "a fresh chain has height {height}");
        for i in 0..base.low_u64() {
            blocks.insert(U256::from(i), chain.raw_at(&U256::from(i))?.ok_or("a fresh chain misses its first block")?);
        }
        let ids = blocks.values().map(|b| r::sha(b)).collect();
        Ok(World { chain: Some(chain), others: vec![], blocks, height, flushed: base, base, ids, lost: vec![], refused: vec![], stats: (0, 0, 0) })
    }

    /// Everything the chain answers about one block it should hold.
    fn block(&self, c: &Any, h: &U256, raw: &Vec<u8>) -> Result<(), String> {
        let id = r::sha(raw);
        ensure!(c.raw_at(h)?.as_ref() == Some(raw), "the block at height {h} is missing or not the one appended there");
        ensure!(c.at(h)?.as_ref() == Some(raw), "the decoded block at height {h} is missing or not the one appended there");
        ensure!(c.raw_of(&id)?.as_ref() == Some(raw), "the block at height {h} is not found under its hash");
        ensure!(c.of(&id)?.as_ref() == Some(raw), "the block at height {h} is not found (decoded) under its hash");
        Ok(())
    }
    fn absent_height(&self, c: &Any, h: &U256) -> Result<(), String> {
        if h < &self.height {
            return Ok(());
        }
        ensure!(c.raw_at(h)?.is_none(), "a block is returned for height {h} although the chain height is {}", self.height);
        ensure!(c.at(h)?.is_none(), "a decoded block is returned for height {h} although the chain height is {}", self.height);
        Ok(())
    }
    fn absent_hash(&self, c: &Any, id: &r::H, what: &str) -> Result<(), String> {
        if self.ids.contains(id) {
            return Ok(());
        }
        ensure!(c.raw_of(id)?.is_none(), "a block is returned for the hash of {what}");
        ensure!(c.of(id)?.is_none(), "a decoded block is returned for the hash of {what}");
        Ok(())
    }
    fn edges(&self, c: &Any) -> Result<(), String> {
        let h = c.height()?;
        ensure!(h == self.height, "the chain height is {h}, expected {}", self.height);
        let last = if self.height.is_zero() { None } else { self.blocks.get(&(self.height - 1)) };
        if last.is_some() || self.height.is_zero() {
            ensure!(c.last_raw()?.as_ref() == last, "the last block is not the one below the chain height");
            ensure!(c.last()?.as_ref() == last, "the decoded last block is not the one below the chain height");
        }
        for d in [0u64, 1, 2, 255, 256, 65536, 1 << 32] {
            if let Some(x) = self.height.checked_add(U256::from(d)) {
                self.absent_height(c, &x)?;
            }
        }
        self.absent_height(c, &U256::MAX)?;
        self.absent_height(c, &(U256::one() << 64))?;
        for k in [64, 128, 255] {
            // heights that agree with an existing one in their low bytes
            if let Some(x) = (U256::one() << k).checked_add(self.height.saturating_sub(U256::one())) {
                self.absent_height(c, &x)?;
            }
        }
        for b in self.lost.iter().rev().take(20) {
            self.absent_hash(c, &r::sha(b), "a block lost by closing without a flush")?;
        }
        for b in self.refused.iter().rev().take(10) {
            self.absent_hash(c, &r::sha(b), "a refused block")?;
        }
        for id in [[0u8; 32], [0xff; 32]] {
            self.absent_hash(c, &id, "no block at all")?;
        }
        Ok(())
    }
    pub fn check_full(&self) -> Result<(), String> {
        let c = self.chain.as_ref().unwrap();
        self.edges(c)?;
        for (h, raw) in &self.blocks {
            self.block(c, h, raw)?;
        }
        for o in &self.others {
            self.edges(o)?;
        }
        Ok(())
    }
    /// Cheap form for long chains.
    pub fn check_near(&self) -> Result<(), String> {
        let c = self.chain.as_ref().unwrap();
        self.edges(c)?;
        for (h, raw) in self.blocks.iter().rev().take(4).chain(self.blocks.iter().take(2)) {
            self.block(c, h, raw)?;
        }
        Ok(())
    }

    pub fn append(&mut self, kind: u8, info: block::BasicInfo, fee: U256, txs: Vec<r::H>) -> Result<(), String> {
        let mut info = info;
        info.height = self.height;
        let (res, raw) = self.chain.as_ref().unwrap().append(kind, info, fee, txs)?;
        if let Err(e) = res {
            return Err(format!("a block with the chain height {} was refused: {}", self.height, e.lines().next().unwrap_or("")));
        }
        self.ids.insert(r::sha(&raw));
        self.blocks.insert(self.height, raw);
        self.height += U256::one();
        self.stats.0 += 1;
        Ok(())
    }

    /// The chain was closed without a flush: it may have lost what came after the last flush.
    pub fn reopened(&mut self, chain: Any, flushed: bool) -> Result<(), String> {
        let h = chain.height()?;
        let low = if flushed { self.height } else { self.flushed };
        ensure!(h >= low && h <= self.height, "opened at height {h}; {low} was flushed and {} reached", self.height);
        let cut: Vec<U256> = self.blocks.keys().copied().filter(|x| *x >= h).collect();
        for k in cut {
            let b = self.blocks.remove(&k).unwrap();
            self.ids.remove(&r::sha(&b));
            self.lost.push(b);
            self.stats.2 += 1;
        }
        self.height = h;
        self.flushed = h;
        self.chain = Some(chain);
        Ok(())
    }

    pub fn step(&mut self, o: &Op, open: &dyn Fn() -> Result<Any, String>) -> Result<(), String> {
        match o {
            Op::Append { kind, info, fee, txs } => self.append(*kind, info.lib(), fee.0, txs.list())?,
            Op::Bulk(n, seed) => {
                for i in 0..*n {
                    let s = expand(seed.wrapping_add(i as u64), 32, 0);
                    let p: r::H = s.try_into().unwrap();
                    let inf = block::BasicInfo::new(*seed, p, p, U256::zero(), [1; 32], addr(5));
                    self.append((i % 3) as u8, inf, U256::from(i), vec![p])?;
                }
            }
            Op::Wrong { info, off, any } => {
                let mut i = info.lib();
                if !*any {
                    let d = U256::from(off.unsigned_abs());
                    i.height = if *off >= 0 { self.height.saturating_add(d) } else { self.height.saturating_sub(d) };
                }
                if i.height == self.height {
                    return Ok(());
                }
                let bh = i.height;
                let (res, raw) = self.chain.as_ref().unwrap().append(1, i, U256::one(), vec![])?;
                ensure!(res.is_err(), "a block with height {bh} was accepted by a chain of height {}", self.height);
                self.refused.push(raw);
                self.stats.1 += 1;
            }
            Op::Repeat(k) => {
                let hs: Vec<U256> = self.blocks.keys().copied().collect();
                if hs.is_empty() {
                    return Ok(());
                }
                // the last few blocks about half of the time
                let n = hs.len();
                let h = hs[if k % 2 == 0 { n - 1 - (*k as usize / 2) % n.min(3) } else { *k as usize * n / 65536 }];
                let raw = self.blocks[&h].clone();
                let c = self.chain.as_ref().unwrap();
                ensure!(c.append_raw(&raw)?.is_err(), "the block at height {h} was accepted a second time by a chain of height {}", self.height);
                self.block(c, &h, &raw).map_err(|e| format!("after it was appended again (and refused): {e}"))?;
                self.stats.1 += 1;
            }
            Op::Again => {
                if let Some((_, raw)) = self.blocks.iter().next_back() {
                    let i = parse_info(raw, matches!(self.chain, Some(Any::Deriv(_))))?;
                    let (res, _) = self.chain.as_ref().unwrap().append(1, i, U256::one(), vec![])?;
                    ensure!(res.is_err(), "a block with the height of the last block was accepted");
                }
            }
            Op::Lost(k) => {
                // a lost block is appended again when its height is the next one
                let cand: Vec<Vec<u8>> = self.lost.iter().filter(|b| parse_info(b, matches!(self.chain, Some(Any::Deriv(_)))).is_ok_and(|i| i.height == self.height)).cloned().collect();
                if !cand.is_empty() {
                    let raw = cand[*k as usize % cand.len()].clone();
                    match self.chain.as_ref().unwrap() {
                        Any::Main(c) => {
                            let b = must("decode", || block::deserialize_main_chain_block(&raw))?;
                            must("add_block", || c.add_block(b))?;
                        }
                        Any::Deriv(c) => {
                            let b = must("decode", || block::DerivativeBlock::parse(&raw[1..]))?;
                            must("add_block", || c.add_block(&b))?;
                        }
                    }
                    self.ids.insert(r::sha(&raw));
                    self.blocks.insert(self.height, raw.clone());
                    self.lost.retain(|b| *b != raw);
                    self.height += U256::one();
                    self.stats.0 += 1;
                }
            }
            Op::Flush => {
                self.chain.as_ref().unwrap().flush()?;
                self.flushed = self.height;
            }
            Op::Reopen { flush } => {
                if *flush {
                    self.chain.as_ref().unwrap().flush()?;
                }
                self.others.clear();
                self.chain = None;
                self.reopened(open()?, *flush)?;
            }
            Op::Look(b, n) => {
                let c = self.chain.as_ref().unwrap();
                self.absent_hash(c, &b.a(), "no block at all")?;
                self.absent_height(c, &n.0)?;
                if let Some(raw) = self.blocks.get(&n.0) {
                    self.block(c, &n.0, raw)?;
                }
            }
            Op::Handle => {
                if self.others.len() < 3 {
                    let d = self.chain.as_ref().unwrap().dup();
                    self.others.push(d);
                }
            }
        }
        if self.blocks.len() <= 40 {
            self.check_full()
        } else {
            self.check_near()
        }
    }
    pub fn close(&mut self) {
        self.others.clear();
        self.chain = None;
    }
}

fn parse_info(raw: &[u8], deriv: bool) -> Result<block::BasicInfo, String> {
    if deriv {
        Ok(must("decode", || block::DerivativeBlock::parse(&raw[1..]))?.default_info)
    } else {
        Ok(must("decode", || block::deserialize_main_chain_block(raw))?.get_info().clone())
    }
}

/// Continue a closed, flushed chain at another height (the blocks in between are not there).
pub fn jump(config: &Path, w: &mut World, to: U256, open: &dyn Fn() -> Result<Any, String>) -> Result<(), String> {
    w.chain.as_ref().unwrap().flush()?;
    w.close();
    fast_forward(config, w.height, to)?;
    let c = open()?;
    let h = c.height()?;
    ensure!(h == to, "a chain with recorded height {to} opened at height {h}");
    w.height = to;
    w.flushed = to;
    w.chain = Some(c);
    Ok(())
}

pub fn label_stats(w: &World, cx: &mut Cx, kinds: &BTreeSet<&'static str>) {
    for k in kinds {
        cx.label(*k);
    }
    if w.stats.1 > 0 {
        cx.label("with refused blocks");
    }
    if w.stats.2 > 0 {
        cx.label("with lost blocks");
    }
    if w.blocks.len() > 300 {
        cx.label("more than 300 blocks");
    }
    if w.stats.0 >= 3 && (w.stats.1 > 0 || w.stats.2 > 0 || kinds.contains("reopened")) {
        cx.nontrivial();
    }
}
pub fn kinds(ops: &[Op]) -> BTreeSet<&'static str> {
    let mut s = BTreeSet::new();
    for o in ops {
        match o {
            Op::Reopen { .. } => s.insert("reopened"),
            Op::Bulk(..) => s.insert("bulk"),
            _ => false,
        };
    }
    s
}

pub struct C13;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    jump: Option<N>,
    ops: Vec<Op>,
}

pub fn jumps() -> BoxedStrategy<Option<N>> {
    prop_oneof![
        4 => Just(None),
        1 => num().prop_map(|n| Some(N(n.0.clamp(U256::from(2), U256::MAX - U256::from(100_000))))),
        1 => proptest::sample::select(vec![254u64, 255, 256, 65534, 65535, 999_998, 999_999, (1 << 32) - 2, u64::MAX - 1, u64::MAX]).prop_map(|x| Some(N(U256::from(x)))),
    ]
    .boxed()
}

impl Property for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    fn rule() -> &'static str {
        "histories of 1..40 steps on a real main chain: appends of both block kinds with random fields (up to 12 transaction hashes, one in 150 up to 4000, one in 4000 up to 45,000, which makes blocks of more than a megabyte), runs of up to 400 appends, blocks with a wrong height, repeats, flushes, closing with and without a flush, re-appending lost or other blocks, starting at heights up to 2^256-10^5; after every step all blocks, both lookups, edge heights and absent hashes compared with the model; non-trivial: at least 3 appends and a refused block, a lost block or a reopen"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4_500, 100_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        (jumps(), ops(40, t.pick(400, 4000), true)).prop_map(|(jump, ops)| Case { jump, ops }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let open = || Ok(Any::Main(open_main(&dir)?));
        let mut w = World::new(open()?, U256::one())?;
        if let Some(j) = &c.jump {
            jump(&main_config(&dir), &mut w, j.0, &open)?;
            cx.label("large height");
        }
        for o in &c.ops {
            w.step(o, &open)?;
        }
        w.check_full()?;
        label_stats(&w, cx, &kinds(&c.ops));
        cx.units += c.ops.len() as u64;
        Ok(())
    }
}
