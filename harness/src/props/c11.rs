use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block;
use blockchaintree::chain::MainChain;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub struct C11;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plant {
    pub zeros: u16,
    pub ts: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Emit { founder: u8, txs: Hashes, gap: i64, pow: Pow },
    EmitAt { ts: u64, pow: Pow },
    Plant(Plant),
    Store(u16),
    Funds(u8, N),
    Flush,
    Reopen,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    /// attempts that must be refused at an epoch boundary, made at the end
    #[serde(default)]
    edge: Option<Edge>,
    /// the chain has reached this height before
    #[serde(default)]
    tall: Option<N>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edge {
    epoch: u16,
    zeros: u8,
    tries: Vec<(Hashes, i64, Pow)>,
    reopen: bool,
}

struct St {
    t: Option<blockchaintree::blockchaintree::BlockChainTree>,
    handles: Vec<MainChain>,
    /// height of the first block known to the model
    from: U256,
    blocks: Vec<Vec<u8>>,
    hashes: Vec<r::H>,
    diff: r::H,
    ts: u64,
    stored: Vec<u16>,
    funds: Funds,
}

impl St {
    fn next(&self) -> U256 {
        self.from + self.blocks.len()
    }
}

fn check(st: &St) -> Result<(), String> {
    let t = st.t.as_ref().unwrap();
    let fresh = t.get_main_chain();
    for c in st.handles.iter().chain([&fresh]) {
        let h = guard(|| c.get_height())?;
        ensure!(h == st.next(), "height {h}, expected {}", st.next());
        let last = must("get_last_raw_block", || c.get_last_raw_block())?;
        ensure!(last.as_ref() == st.blocks.last(), "the last block of a handle is not the one emitted last");
    }
    for (i, b) in st.blocks.iter().enumerate() {
        let got = must("find_raw_by_height", || fresh.find_raw_by_height(&(st.from + i)))?;
        ensure!(got.as_ref() == Some(b), "the block at height {} changed", st.from + i);
    }
    ensure!(must("find_raw_by_height", || fresh.find_raw_by_height(&st.next()))?.is_none(), "a block beyond the height is returned");
    for i in 0..60u16 {
        let x = unsigned_tx(i);
        use blockchaintree::transaction::Transactionable;
        let has = must("transaction_exists", || fresh.transaction_exists(&x.hash()))?;
        ensure!(has == st.stored.contains(&i), "stored transactions changed");
    }
    ensure!(funds(t, &accounts(7))? == st.funds, "balances changed");
    Ok(())
}

/// Goes to just before an epoch boundary and makes attempts that must be refused and change nothing.
fn at_boundary(dir: &std::path::Path, mut st: St, e: &Edge, cx: &mut Cx) -> Result<(), String> {
    let t = st.t.take().unwrap();
    st.handles.clear();
    must("flush", || block_on(t.flush()))?;
    drop(t);
    let boundary = U256::from(e.epoch) * 1_000_000;
    fast_forward(&main_config(dir), st.next(), boundary - 1)?;
    let mut t = open_tree(dir)?;
    let d = r::difficulty_of(e.zeros as u32);
    let i = block::BasicInfo::new(10_000, [7; 32], [8; 32], boundary - 1, d, addr(5));
    let b = block::TransactionBlock::new(1.into(), i, [0; 32], vec![[1; 32]]);
    let raw = must("dump", || b.dump())?;
    let prev = r::sha(&raw);
    must("add_block", || t.get_main_chain().add_block(Arc::new(b)))?;
    if st.blocks.len() == 1 {
        st.funds = funds(&t, &accounts(7))?; // reopening is judged by C16
    }
    for (txs, gap, pow) in &e.tries {
        let txs = txs.list();
        let (n, ok) = nonce(pow, &prev, &[8; 32], &d, &txs);
        if ok && txs.is_empty() {
            continue; // judged by C21
        }
        let res = emit_main(&mut t, &n, &addr(3), &txs, add_gap(10_000, *gap))?;
        ensure!(res.is_err(), "at height {boundary} a block with {} transactions and {} nonce was emitted", txs.len(), if ok { "a sufficient" } else { "an insufficient" });
        cx.label(if ok { "refused at a boundary: transactions" } else { "refused at a boundary: nonce" });
        for reopened in [false, true] {
            if reopened {
                if !e.reopen {
                    break;
                }
                must("flush", || block_on(t.flush()))?;
                drop(t);
                t = open_tree(dir)?;
            }
            let c = t.get_main_chain();
            let h = guard(|| c.get_height())?;
            ensure!(h == boundary, "a refused emission at height {boundary} left the chain at height {h}");
            ensure!(must("get_last_raw_block", || c.get_last_raw_block())?.as_ref() == Some(&raw), "a refused emission at an epoch boundary changed the last block");
            ensure!(funds(&t, &accounts(7))? == st.funds, "a refused emission at an epoch boundary changed balances");
            for i in 0..60u16 {
                use blockchaintree::transaction::Transactionable;
                let has = must("transaction_exists", || c.transaction_exists(&unsigned_tx(i).hash()))?;
                ensure!(has == st.stored.contains(&i), "a refused emission at an epoch boundary changed the stored transactions");
            }
        }
    }
    Ok(())
}

impl Property for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    fn rule() -> &'static str {
        "histories of 1..25 emissions on a real tree (0..40 transaction hashes, one emission in 500 up to 5000, one in 10,000 up to 45,000, nonces sufficient, insufficient by one bit, for another parent or list, or random; gaps around 600 s, reversed and extreme timestamps), mixed with planted blocks of any difficulty and timestamp, stored transactions, balance changes, flushes and reopens; an eighth of them on a chain that has already reached a large height (around powers of 256 and of two, or any); in a tenth of them refused attempts at an epoch boundary at the end; after every step chain, handles, transactions and balances compared with the model; non-trivial: at least two accepted emissions and one refused"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(8_000, 200_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let txs = prop_oneof![1 => Just(Hashes { len: 0, seed: 0, set: vec![], dup: vec![] }).boxed(), 6 => hashes_nonempty(6), 1 => hashes_rare(40, 5000, 60, 1200).prop_map(|mut h| { h.len = h.len.max(1); h })];
        let op = prop_oneof![
            16 => (0u8..8, txs, gap(), pow(8)).prop_map(|(founder, txs, gap, pow)| Op::Emit { founder, txs, gap, pow }),
            2 => (u64v(), pow(8)).prop_map(|(ts, pow)| Op::EmitAt { ts, pow }),
            2 => (prop_oneof![4 => 1u16..=10, 1 => 1u16..=256], u64v()).prop_map(|(zeros, ts)| Op::Plant(Plant { zeros, ts })),
            1 => (0u16..60).prop_map(Op::Store),
            1 => (0u8..7, amount()).prop_map(|(a, n)| Op::Funds(a, n)),
            1 => Just(Op::Flush),
            1 => Just(Op::Reopen),
        ];
        let list = prop_oneof![1 => Just(Hashes { len: 0, seed: 0, set: vec![], dup: vec![] }).boxed(), 2 => hashes_nonempty(6)];
        let edge = (1u16..2000, 1u8..=8, proptest::collection::vec((list, gap(), pow(2)), 1..4), any::<bool>()).prop_map(|(epoch, zeros, tries, reopen)| Edge { epoch, zeros, tries, reopen });
        (proptest::collection::vec(op, 1..25), proptest::option::weighted(0.1, edge), proptest::option::weighted(0.12, tall_height())).prop_map(|(ops, edge, tall)| Case { ops, edge: if tall.is_some() { None } else { edge }, tall }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let t = open_tree(&dir)?;
        let h0 = t.get_main_chain();
        let g = must("last block", || h0.get_last_block())?.ok_or("a fresh tree has no last block")?;
        let raw = must("dump", || g.dump())?;
        let mut st = St {
            funds: funds(&t, &accounts(7))?,
            t: Some(t),
            handles: vec![h0],
            from: 0.into(),
            hashes: vec![r::sha(&raw)],
            blocks: vec![raw],
            diff: g.get_info().difficulty,
            ts: g.get_info().timestamp,
            stored: vec![],
        };
        if let Some(h) = &c.tall {
            // at least 1000 blocks before the next epoch
            let far = h.0 % 1_000_000;
            let h = if far >= U256::from(999_000) { h.0 - 1000 } else if far.is_zero() { h.0 + 1 } else { h.0 };
            let t = st.t.take().unwrap();
            st.handles.clear();
            must("flush", || block_on(t.flush()))?;
            drop(t);
            fast_forward(&main_config(&dir), 1.into(), h)?;
            let t = open_tree(&dir)?;
            st.diff = r::difficulty_of(2);
            st.ts = 20_000;
            let i = block::BasicInfo::new(st.ts, [7; 32], [8; 32], h, st.diff, addr(5));
            let b = block::TransactionBlock::new(1.into(), i, [0; 32], vec![[1; 32]]);
            let raw = must("dump", || b.dump())?;
            must("add_block", || t.get_main_chain().add_block(Arc::new(b)))?;
            st.funds = funds(&t, &accounts(7))?; // reopening is judged by C16
            st.from = h;
            st.hashes = vec![r::sha(&raw)];
            st.blocks = vec![raw];
            st.handles.push(t.get_main_chain());
            st.t = Some(t);
            cx.label("a tall chain");
        }
        let (mut yes, mut no) = (0, 0);
        for o in &c.ops {
            match o {
                Op::Emit { .. } | Op::EmitAt { .. } => {
                    let z = r::leading_zero_bits(&st.diff);
                    let (founder, txs, ts, pow) = match o {
                        Op::Emit { founder, txs, gap, pow } => (addr(*founder), txs.list(), add_gap(st.ts, eased(*gap, z)), pow),
                        Op::EmitAt { ts, pow } => (addr(7), vec![[9u8; 32]], *ts, pow),
                        _ => unreachable!(),
                    };
                    let prev = *st.hashes.last().unwrap();
                    let pp = st.hashes[st.hashes.len().saturating_sub(2)];
                    let (n, ok) = nonce(pow, &prev, &pp, &st.diff, &txs);
                    let expect = ok && !txs.is_empty();
                    let res = emit_main(st.t.as_mut().unwrap(), &n, &founder, &txs, ts)?;
                    match res {
                        Err(e) => {
                            ensure!(!expect, "a block with a sufficient nonce ({z} zero bits, {} transactions) was refused: {}", txs.len(), e.lines().next().unwrap_or(""));
                            no += 1;
                            cx.label(if ok { "refused: no transactions" } else { "refused: nonce" });
                        }
                        Ok(b) => {
                            ensure!(expect, "a block was emitted with {} and {} transactions", if ok { "a sufficient nonce" } else { "an insufficient nonce" }, txs.len());
                            yes += 1;
                            cx.label("emitted");
                            let i = b.get_info();
                            ensure!(b.get_type() as u8 == 2, "the emitted block is not a transaction block");
                            ensure!(i.height == st.next(), "emitted at height {}, expected {}", i.height, st.next());
                            ensure!(i.previous_hash == prev, "the emitted block does not link to its parent");
                            ensure!(i.founder == founder && b.get_founder() == &founder, "wrong founder");
                            ensure!(i.pow == n, "wrong nonce");
                            ensure!(i.timestamp == ts, "timestamp {} instead of {ts}", i.timestamp);
                            ensure!(b.transactions() == Some(&txs[..]), "the emitted block lists other transactions");
                            ensure!(b.get_merkle_root() == r::merkle_root(&txs), "wrong Merkle root");
                            let want = r::retarget(&st.diff, st.ts, ts).ok_or("HARNESS difficulty")?;
                            ensure!(i.difficulty == want, "difficulty {} after {} with timestamps {} -> {ts}", hex::encode(i.difficulty), hex::encode(st.diff), st.ts);
                            ensure!(b.get_fee() == r::fee_of(&want), "fee {} for {} zero bits", b.get_fee(), r::leading_zero_bits(&want));
                            let raw = must("dump", || b.dump())?;
                            st.hashes.push(r::sha(&raw));
                            st.blocks.push(raw);
                            st.diff = want;
                            st.ts = ts;
                        }
                    }
                }
                Op::Plant(p) => {
                    let i = block::BasicInfo::new(p.ts, [3; 32], *st.hashes.last().unwrap(), st.next(), r::difficulty_of(p.zeros as u32), addr(4));
                    let b = block::TransactionBlock::new(1.into(), i, [1; 32], vec![[2; 32]]);
                    let raw = must("dump", || b.dump())?;
                    must("add_block", || st.handles[0].add_block(Arc::new(b)))?;
                    st.hashes.push(r::sha(&raw));
                    st.blocks.push(raw);
                    st.diff = r::difficulty_of(p.zeros as u32);
                    st.ts = p.ts;
                }
                Op::Store(i) => {
                    must("add_transaction", || st.handles[0].add_transaction(&unsigned_tx(*i)))?;
                    st.stored.push(*i);
                }
                Op::Funds(a, n) => {
                    must("set_amount", || st.t.as_ref().unwrap().set_amount(&addr(*a), n.0))?;
                    st.funds.coins.insert(addr(*a), n.0);
                }
                Op::Flush => must("flush", || block_on(st.t.as_ref().unwrap().flush()))?,
                Op::Reopen => {
                    must("flush", || block_on(st.t.as_ref().unwrap().flush()))?;
                    st.handles.clear();
                    drop(st.t.take());
                    let t = open_tree(&dir)?;
                    st.handles.push(t.get_main_chain());
                    st.funds = funds(&t, &accounts(7))?; // reopening is judged by C16
                    st.t = Some(t);
                    cx.label("reopened");
                }
            }
            if st.handles.len() < 3 {
                st.handles.push(st.t.as_ref().unwrap().get_main_chain());
            }
            check(&st)?;
        }
        if yes >= 2 && no >= 1 {
            cx.nontrivial();
        }
        if let Some(e) = &c.edge {
            at_boundary(&dir, st, e, cx)?;
        }
        Ok(())
    }
}
