use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block::Block;
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::DerivativeChain;
use blockchaintree::transaction::Transactionable;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;

pub struct C16;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(u8, N, bool),
    Set(u8, N),
    Sub(u8, N, bool),
    Send(u8, u8, N, bool),
    /// hand everything an account has to another
    SendAll(u8, u8, bool),
    Main { gap: i64, seed: u32 },
    Deriv { owner: u8, gap: i64, seed: u32 },
    OpenDeriv(u8),
    Store(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Do(Op),
    Flush,
    /// flush everything, close, open this many times
    Reopen(u8),
    /// close without a flush and open again
    Unflushed,
    /// threads append blocks (to the main chain, or one of the open derivative chains), each followed by a flush of
    /// its own, at the same time; then close and open
    Together(Vec<Vec<Option<u8>>>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
}

pub fn some_op() -> BoxedStrategy<Op> {
    let acct = || 0u8..8;
    prop_oneof![
        3 => (acct(), amount(), any::<bool>()).prop_map(|(a, n, g)| Op::Add(a, n, g)),
        1 => (acct(), num()).prop_map(|(a, n)| Op::Set(a, n)),
        1 => (acct(), amount(), any::<bool>()).prop_map(|(a, n, g)| Op::Sub(a, n, g)),
        4 => (acct(), acct(), amount(), any::<bool>()).prop_map(|(a, b, n, g)| Op::Send(a, b, n, g)),
        1 => (acct(), acct(), any::<bool>()).prop_map(|(a, b, g)| Op::SendAll(a, b, g)),
        4 => (gap(), any::<u32>()).prop_map(|(gap, seed)| Op::Main { gap, seed }),
        3 => (0u8..3, gap(), any::<u32>()).prop_map(|(owner, gap, seed)| Op::Deriv { owner, gap, seed }),
        1 => (0u8..3).prop_map(Op::OpenDeriv),
        3 => some_tx().prop_map(Op::Store),
    ]
    .boxed()
}

/// An open tree and the derivative chains opened so far.
pub struct Live {
    pub t: BlockChainTree,
    pub chains: BTreeMap<u8, DerivativeChain>,
    /// height of the first main block looked at (above zero after a jump towards an epoch boundary)
    pub from: u64,
}
impl Live {
    pub fn open(dir: &Path, owners: &[u8]) -> Result<Live, String> {
        let mut t = open_tree(dir)?;
        let mut chains = BTreeMap::new();
        for o in owners {
            chains.insert(*o, tree_deriv(&mut t, &addr(4 + o))?);
        }
        Ok(Live { t, chains, from: 0 })
    }
    pub fn flush(&self) -> Result<(), String> {
        must("flush", || block_on(self.t.flush()))?;
        for c in self.chains.values() {
            must("flush of a derivative chain", || block_on(c.flush()))?;
        }
        Ok(())
    }
    /// Flushes, closes and continues at main height `to` (with a filler block there).
    pub fn jump(self, dir: &Path, to: u64, zeros: u32) -> Result<Live, String> {
        self.flush()?;
        let owners = self.owners();
        let h = guard(|| self.t.get_main_chain().get_height())?;
        drop(self);
        fast_forward(&main_config(dir), h, to.into())?;
        let mut l = Live::open(dir, &owners)?;
        l.from = to;
        let i = blockchaintree::block::BasicInfo::new(10_000, [7; 32], [8; 32], to.into(), r::difficulty_of(zeros), addr(5));
        let b = blockchaintree::block::TransactionBlock::new(1.into(), i, [0; 32], vec![[1; 32]]);
        must("add_block", || l.t.get_main_chain().add_block(std::sync::Arc::new(b)))?;
        l.flush()?;
        Ok(l)
    }
    pub fn reopen(self, dir: &Path) -> Result<Live, String> {
        let (owners, from) = (self.owners(), self.from);
        drop(self);
        let mut l = Live::open(dir, &owners)?;
        l.from = from;
        Ok(l)
    }
    pub fn owners(&self) -> Vec<u8> {
        self.chains.keys().copied().collect()
    }
    pub fn deriv(&mut self, o: u8) -> Result<DerivativeChain, String> {
        let c = tree_deriv(&mut self.t, &addr(4 + o))?;
        self.chains.insert(o, c.clone());
        Ok(c)
    }

    /// Applies an operation; operations the library refuses are simply not done.
    pub fn apply(&mut self, o: &Op) -> Result<(), String> {
        match o {
            Op::Add(a, n, false) => drop(guard(|| self.t.add_amount(&addr(*a), n.0))),
            Op::Add(a, n, true) => drop(guard(|| self.t.add_gas(&addr(*a), n.0))),
            Op::Set(a, n) => must("set_amount", || self.t.set_amount(&addr(*a), n.0))?,
            Op::Sub(a, n, false) => drop(guard(|| self.t.sub_amount(&addr(*a), n.0))),
            Op::Sub(a, n, true) => drop(guard(|| self.t.sub_gas(&addr(*a), n.0))),
            Op::Send(a, b, n, false) => drop(guard(|| self.t.send_amount(&addr(*a), &addr(*b), n.0))),
            Op::Send(a, b, n, true) => drop(guard(|| self.t.send_gas(&addr(*a), &addr(*b), n.0))),
            Op::SendAll(a, b, false) => {
                let n = must("get_amount", || self.t.get_amount(&addr(*a)))?;
                drop(guard(|| self.t.send_amount(&addr(*a), &addr(*b), n)))
            }
            Op::SendAll(a, b, true) => {
                let n = must("get_gas", || self.t.get_gas(&addr(*a)))?;
                drop(guard(|| self.t.send_gas(&addr(*a), &addr(*b), n)))
            }
            Op::Main { gap, seed } => {
                let last = must("last block", || self.t.get_main_chain().get_last_block())?.ok_or("no last block")?;
                let d = last.get_info().difficulty;
                let ts = add_gap(last.get_info().timestamp, eased(*gap, r::leading_zero_bits(&d)));
                let boundary = ((last.get_info().height + 1) % 1_000_000).is_zero();
                // one block in 128 is larger, one in 65536 has more than a megabyte
                let n = match (seed >> 8) % 65536 {
                    7 => 40_000,
                    k if k % 128 == 9 => [60, 260, 1000, 4200][(k / 128) as usize % 4],
                    _ => 1 + seed % 3,
                };
                let txs: Vec<r::H> = (0..if boundary { 0 } else { n }).map(|i| r::sha(&[i as u8, *seed as u8, (i >> 8) as u8][..if i < 3 { 2 } else { 3 }])).collect();
                let n = r::mine(&must("hash", || last.hash())?, &d, &txs, *seed as u64, true);
                let b = emit_main(&mut self.t, &n, &addr((seed % 8) as u8), &txs, ts)?;
                ensure!(b.is_ok(), "a main block with a sufficient nonce was refused: {}", b.err().unwrap_or_default().lines().next().unwrap_or(""));
            }
            Op::Deriv { owner, gap, seed } => {
                let c = self.deriv(*owner)?;
                let (h, d, ts0) = match must("last block", || c.get_last_block())? {
                    Some(b) => (must("hash", || b.hash())?, b.get_info().difficulty, b.get_info().timestamp),
                    None => match must("anchor", || self.t.get_main_chain().find_by_hash(&c.genesis_hash))? {
                        Some(a) => (*c.genesis_hash, r::difficulty_of(1), a.get_info().timestamp),
                        // anchored at a block that an unflushed close lost
                        None => return Ok(()),
                    },
                };
                let ts = add_gap(ts0, eased(*gap, r::leading_zero_bits(&d)));
                let n = r::mine(&h, &d, &[], *seed as u64, true);
                let b = emit_deriv(&mut self.t, &n, &addr(4 + owner), ts)?;
                ensure!(b.is_ok(), "a derivative block with a sufficient nonce was refused: {}", b.err().unwrap_or_default().lines().next().unwrap_or(""));
            }
            Op::OpenDeriv(o) => drop(self.deriv(*o)?),
            Op::Store(i) => must("add_transaction", || self.t.get_main_chain().add_transaction(&unsigned_tx(*i)))?,
        }
        Ok(())
    }

    pub fn snapshot(&self) -> Result<Snapshot, String> {
        let main = self.t.get_main_chain();
        let mut derivs = BTreeMap::new();
        for (o, c) in &self.chains {
            derivs.insert(*o, (*c.genesis_hash, deriv_blocks(c)?));
        }
        let mut txs = BTreeMap::new();
        for (i, h) in unsigned_hashes().iter().enumerate() {
            if let Some(raw) = must("get_transaction_raw", || main.get_transaction_raw(h))? {
                ensure!(must("transaction_exists", || main.transaction_exists(h))?, "a stored transaction is reported absent");
                txs.insert(i as u16, raw);
            }
        }
        let blocks = main_blocks(&main, self.from)?;
        for b in blocks.iter() {
            ensure!(must("find_raw_by_hash", || main.find_raw_by_hash(&r::sha(b)))?.as_ref() == Some(b), "a main block is not found under its hash");
        }
        Ok(Snapshot { from: self.from, main: blocks, derivs, txs, funds: funds(&self.t, &accounts(8))? })
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Snapshot {
    pub from: u64,
    pub main: Vec<Vec<u8>>,
    pub derivs: BTreeMap<u8, (r::H, Vec<Vec<u8>>)>,
    pub txs: BTreeMap<u16, Vec<u8>>,
    pub funds: Funds,
}
impl Snapshot {
    pub fn differs(&self, o: &Snapshot) -> Option<String> {
        if self.main.len() != o.main.len() {
            return Some(format!("main chain height {} became {}", self.main.len(), o.main.len()));
        }
        if self.main != o.main {
            return Some("main chain blocks changed".into());
        }
        if self.derivs != o.derivs {
            return Some("derivative chains (blocks or anchors) changed".into());
        }
        if self.txs != o.txs {
            return Some(format!("{} stored transactions became {} (or others)", self.txs.len(), o.txs.len()));
        }
        if self.funds.coins != o.funds.coins {
            let d = self.funds.coins.iter().find(|(k, v)| o.funds.coins[*k] != **v).unwrap();
            return Some(format!("a coin balance of {} became {}", d.1, o.funds.coins[d.0]));
        }
        if self.funds.gas != o.funds.gas {
            let d = self.funds.gas.iter().find(|(k, v)| o.funds.gas[*k] != **v).unwrap();
            return Some(format!("a gas balance of {} became {}", d.1, o.funds.gas[d.0]));
        }
        None
    }
}
fn total(m: &BTreeMap<Addr, U256>) -> U256 {
    m.values().fold(U256::zero(), |a, b| a.overflowing_add(*b).0)
}

/// Appends a block at whatever height comes next and flushes the chain, or the whole tree.
fn append_and_flush(t: &BlockChainTree, chains: &[DerivativeChain], which: Option<u8>) -> Result<(), String> {
    use blockchaintree::block::{BasicInfo, DerivativeBlock, TransactionBlock};
    let info = |h: U256| BasicInfo::new(10_000, [7; 32], [8; 32], h, r::difficulty_of(2), addr(5));
    // each failed attempt is another thread's success
    for _ in 0..100 {
        let done = match which {
            None => {
                let c = t.get_main_chain();
                let h = guard(|| c.get_height())?;
                op("add_block", || c.add_block(std::sync::Arc::new(TransactionBlock::new(1.into(), info(h), [0; 32], vec![[1; 32]]))))?.is_ok()
            }
            Some(o) => {
                let c = &chains[o as usize % chains.len()];
                let h = guard(|| c.get_height())?;
                op("add_block", || c.add_block(&DerivativeBlock { default_info: info(h) }))?.is_ok()
            }
        };
        if done {
            return match which {
                None => must("flush", || block_on(t.flush())),
                Some(o) => must("flush of a derivative chain", || block_on(chains[o as usize % chains.len()].flush())),
            };
        }
    }
    Err("appending failed a hundred times".into())
}

impl Property for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    fn rule() -> &'static str {
        "histories of 1..30 steps on a real tree (coin and gas changes, transfers of everything, main and derivative emission, stored transactions; rarely blocks of thousands of transactions and transactions of up to 1.2 MB) with flush + close + 1..3 reopens at random points, directly after creation included, closes without a flush, and threads that append and flush at the same time before a close; before/after snapshots of all chains, anchors, transactions and balances compared; after an unflushed close totals compared; non-trivial: at least one reopen preceded by a change since the previous one"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(2_100, 30_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let s = prop_oneof![
            10 => some_op().prop_map(Step::Do),
            1 => Just(Step::Flush),
            2 => (1u8..=3).prop_map(Step::Reopen),
            1 => Just(Step::Unflushed),
            1 => proptest::collection::vec(proptest::collection::vec(proptest::option::weighted(0.4, 0u8..3), 1..5), 2..4).prop_map(Step::Together),
        ];
        proptest::collection::vec(s, 1..30).prop_map(|steps| Case { steps }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let mut l = Live::open(&dir, &[])?;
        let mut dirty = false;
        let mut reopens = 0;
        for s in &c.steps {
            match s {
                Step::Do(o) => {
                    l.apply(o)?;
                    dirty = true;
                }
                Step::Flush => {
                    let a = l.snapshot()?;
                    l.flush()?;
                    if let Some(d) = a.differs(&l.snapshot()?) {
                        return Err(format!("a flush changed the tree: {d}"));
                    }
                }
                Step::Reopen(n) => {
                    l.flush()?;
                    let a = l.snapshot()?;
                    let owners = l.owners();
                    if dirty {
                        cx.nontrivial();
                    }
                    dirty = false;
                    if a.main.len() == 1 {
                        cx.label("reopened at height one");
                    } else {
                        cx.label("reopened at a greater height");
                    }
                    for i in 0..*n {
                        drop(l);
                        // the same folder, written differently
                        let d = match (reopens + i as u64) % 4 {
                            1 => dir.join(""),
                            2 => dir.join("."),
                            _ => dir.to_path_buf(),
                        };
                        l = Live::open(&d, &owners)?;
                        reopens += 1;
                        if let Some(d) = a.differs(&l.snapshot()?) {
                            return Err(format!("flush, close and open number {}: {d}", i + 1));
                        }
                    }
                }
                Step::Together(threads) => {
                    l.flush()?;
                    let owners = l.owners();
                    let chains: Vec<DerivativeChain> = l.chains.values().cloned().collect();
                    let acts: Vec<Vec<Option<u8>>> = threads.iter().map(|v| v.iter().map(|o| o.filter(|_| !chains.is_empty())).collect()).collect();
                    let outs = together(&acts, |a| append_and_flush(&l.t, &chains, *a));
                    for r in outs.into_iter().flatten() {
                        r?;
                    }
                    let a = l.snapshot()?;
                    drop(chains);
                    drop(l);
                    l = Live::open(&dir, &owners)?;
                    cx.label("flushed by several threads at once");
                    if let Some(d) = a.differs(&l.snapshot()?) {
                        return Err(format!("several threads, each flushing after its last append, then close and open: {d}"));
                    }
                }
                Step::Unflushed => {
                    let a = l.snapshot()?;
                    drop(l);
                    l = Live::open(&dir, &[])?;
                    let b = l.snapshot()?;
                    cx.label("closed without a flush");
                    ensure!(
                        total(&a.funds.coins) == total(&b.funds.coins) && total(&a.funds.gas) == total(&b.funds.gas),
                        "closing without a flush and opening changed the totals: coins {} to {}, gas {} to {}",
                        total(&a.funds.coins),
                        total(&b.funds.coins),
                        total(&a.funds.gas),
                        total(&b.funds.gas)
                    );
                    ensure!(b.main.len() <= a.main.len() && a.main[..b.main.len()] == b.main[..], "the main chain is not a prefix of the one before closing");
                }
            }
        }
        cx.units += reopens;
        Ok(())
    }
}
