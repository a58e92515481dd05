use super::c02::{same_tx, tx, tx_rare, Tx};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct C15;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    New(Tx),
    /// one that is already stored, by index
    Known(u16),
    /// one that differs from a stored one in one field
    Twin(u16, u8),
    /// one that comes earlier in the same batch
    Again(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    One(Tx),
    Batch(Vec<Item>),
    /// a block together with transactions
    WithBlock(Vec<Item>, bool),
    /// a run of small distinct transactions
    Run(u16, u64),
    /// the same in one batch, or with a block
    Bulk(u16, u64, bool),
    /// store one again, by index
    Again(u16),
    /// one that differs from a stored one in one field
    Twin(u16, u8),
    /// several threads store at the same time, one by one or in batches, possibly with flushes meanwhile
    Parallel(Vec<Vec<(Vec<Item>, bool)>>, bool),
    Flush,
    Reopen,
    Look(B),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

fn twin(x: &Tx, f: u8) -> Tx {
    let mut x = x.clone();
    match f % 6 {
        0 => x.from.0[32] ^= 1,
        1 => x.to.0[0] ^= 0x80,
        2 => x.ts ^= 1,
        3 => x.amount.0 = x.amount.0 ^ U256::one(),
        4 => x.sig.0[63] ^= 1,
        _ => x.data.get_or_insert(B(vec![])).0.push(0),
    }
    x
}

fn batch(v: &[Item], order: &[Tx], cx: &mut Cx) -> Vec<Tx> {
    let mut out: Vec<Tx> = vec![];
    for i in v {
        match i {
            Item::New(x) => out.push(x.clone()),
            Item::Known(k) if !order.is_empty() => {
                out.push(order[*k as usize % order.len()].clone());
                cx.label("batch with a stored one");
            }
            Item::Twin(k, f) if !order.is_empty() => out.push(twin(&order[*k as usize % order.len()], *f)),
            Item::Again(k) if !out.is_empty() => {
                out.push(out[*k as usize % out.len()].clone());
                cx.label("batch with a repeat");
            }
            _ => {}
        }
    }
    out
}

fn lookup(c: &blockchaintree::chain::MainChain, h: &r::H, want: Option<&(Transaction, Vec<u8>)>) -> Result<(), String> {
    let has = must("transaction_exists", || c.transaction_exists(h))?;
    ensure!(has == want.is_some(), "transaction_exists says {has}");
    let raw = must("get_transaction_raw", || c.get_transaction_raw(h))?;
    ensure!(raw.as_ref() == want.map(|w| &w.1), "the stored bytes differ from those of the transaction (present: {})", raw.is_some());
    let t = must("get_transaction", || c.get_transaction(h))?;
    match (t, want) {
        (None, None) => Ok(()),
        (Some(t), Some(w)) => {
            same_tx(&w.0, &t)?;
            ensure!(&t.hash() == h, "the transaction has another hash");
            Ok(())
        }
        (t, _) => Err(format!("get_transaction returned {}", if t.is_some() { "something for an unknown hash" } else { "nothing for a stored transaction" })),
    }
}

impl Property for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    fn rule() -> &'static str {
        "histories of 1..25 steps on a real tree: single, batched and block-accompanied storing of random transactions (payload up to 60 KB, one in 50 larger, up to 1.5 MB; extreme amounts), repeats and near-twins alone and inside batches, runs of up to 300 and batches of up to 1200, two or three threads storing at the same time, flushes and reopens; after every step the touched transactions, at the end all of them, plus unknown hashes; chain, height and balances compared; non-trivial: at least 3 transactions and a repeat, twin or reopen"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(6_000, 150_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let txs = || prop_oneof![8 => tx(300), 1 => tx_rare(60_000, 6)];
        let item = move || {
            prop_oneof![
                5 => txs().prop_map(Item::New),
                2 => any::<u16>().prop_map(Item::Known),
                1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Item::Twin(a, b)),
                1 => any::<u8>().prop_map(Item::Again),
            ]
        };
        let run = t.pick(300u16, 3000);
        let op = prop_oneof![
            5 => txs().prop_map(Op::One),
            3 => proptest::collection::vec(item(), 0..8).prop_map(Op::Batch),
            2 => (proptest::collection::vec(item(), 0..5), any::<bool>()).prop_map(|(v, b)| Op::WithBlock(v, b)),
            1 => (1..=run, any::<u64>()).prop_map(|(n, s)| Op::Run(n, s)),
            1 => (prop_oneof![3 => 1..=run, 1 => 1..=4 * run], any::<u64>(), any::<bool>()).prop_map(|(n, s, b)| Op::Bulk(n, s, b)),
            1 => (proptest::collection::vec(proptest::collection::vec((proptest::collection::vec(item(), 1..4), any::<bool>()), 1..6), 2..4), any::<bool>()).prop_map(|(v, f)| Op::Parallel(v, f)),
            2 => any::<u16>().prop_map(Op::Again),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Op::Twin(a, b)),
            1 => Just(Op::Flush),
            1 => Just(Op::Reopen),
            2 => arr(32).prop_map(Op::Look),
        ];
        proptest::collection::vec(op, 1..25).prop_map(|ops| Case { ops }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let mut t = open_tree(&dir)?;
        let mut model: BTreeMap<r::H, (Transaction, Vec<u8>)> = BTreeMap::new();
        let mut order: Vec<Tx> = vec![];
        let mut blocks = main_blocks(&t.get_main_chain(), 0)?;
        let f0 = funds(&t, &accounts(7))?;
        let mut special = false;
        for o in &c.ops {
            let ch = t.get_main_chain();
            let mut touched: Vec<r::H> = vec![];
            let mut note = |x: &Tx, model: &mut BTreeMap<r::H, (Transaction, Vec<u8>)>, order: &mut Vec<Tx>| -> Result<(), String> {
                let l = x.lib();
                let d = must("dump", || l.dump())?;
                touched.push(l.hash());
                model.insert(l.hash(), (l, d));
                order.push(x.clone());
                Ok(())
            };
            match o {
                Op::One(x) => {
                    must("add_transaction", || ch.add_transaction(&x.lib()))?;
                    note(x, &mut model, &mut order)?;
                }
                Op::Batch(v) => {
                    let v = &batch(v, &order, cx);
                    let l: Vec<Transaction> = v.iter().map(|x| x.lib()).collect();
                    must("add_transactions", || ch.add_transactions(&l))?;
                    for x in v {
                        note(x, &mut model, &mut order)?;
                    }
                }
                Op::WithBlock(v, right) => {
                    let v = &batch(v, &order, cx);
                    let l: Vec<Transaction> = v.iter().map(|x| x.lib()).collect();
                    let h = if *right { blocks.len() as u64 } else { blocks.len() as u64 + 1 };
                    let i = block::BasicInfo::new(7, [1; 32], [2; 32], U256::from(h), [3; 32], addr(4));
                    let b = Arc::new(block::TransactionBlock::new(1.into(), i, [4; 32], l.iter().map(|x| x.hash()).collect()));
                    let raw = must("dump", || b.dump())?;
                    match op("add_new_block", || t.add_new_block(b.clone(), &l))? {
                        Ok(()) => {
                            ensure!(*right, "a block with the wrong height was added");
                            blocks.push(raw);
                            for x in v {
                                note(x, &mut model, &mut order)?;
                            }
                        }
                        Err(e) => {
                            ensure!(!*right, "a block with transactions was refused: {}", e.lines().next().unwrap_or(""));
                            for x in v {
                                let h = x.lib().hash();
                                ensure!(
                                    model.contains_key(&h) || !must("transaction_exists", || ch.transaction_exists(&h))?,
                                    "a transaction that came with a refused block was stored"
                                );
                            }
                        }
                    }
                }
                Op::Run(n, s) => {
                    for i in 0..*n {
                        let s = s.wrapping_add(i as u64);
                        let x = Tx { from: B(vec![1; 33]), to: B(vec![2; 33]), ts: s, amount: N(s.into()), data: None, sig: B(expand(s, 64, 0)) };
                        must("add_transaction", || ch.add_transaction(&x.lib()))?;
                        note(&x, &mut model, &mut order)?;
                    }
                    cx.label("run");
                }
                Op::Bulk(n, s, with_block) => {
                    let v: Vec<Tx> = (0..*n as u64)
                        .map(|i| s.wrapping_add(i))
                        .map(|s| Tx { from: B(vec![1; 33]), to: B(vec![2; 33]), ts: s, amount: N(s.into()), data: None, sig: B(expand(s, 64, 0)) })
                        .collect();
                    let l: Vec<Transaction> = v.iter().map(|x| x.lib()).collect();
                    if *with_block {
                        let i = block::BasicInfo::new(7, [1; 32], [2; 32], U256::from(blocks.len()), [3; 32], addr(4));
                        let b = Arc::new(block::TransactionBlock::new(1.into(), i, [4; 32], l.iter().map(|x| x.hash()).collect()));
                        let raw = must("dump", || b.dump())?;
                        must("add_new_block", || t.add_new_block(b.clone(), &l))?;
                        blocks.push(raw);
                    } else {
                        must("add_transactions", || ch.add_transactions(&l))?;
                    }
                    for x in &v {
                        note(x, &mut model, &mut order)?;
                    }
                    cx.label(if *n > 255 { "batch of more than 255" } else { "run in one batch" });
                }
                Op::Parallel(threads, flush) => {
                    let lists: Vec<Vec<(Vec<Tx>, bool)>> = threads.iter().map(|v| v.iter().map(|(b, one)| (batch(b, &order, cx), *one)).collect()).collect();
                    let mut acts: Vec<Vec<Option<(Vec<Transaction>, bool)>>> = lists.iter().map(|v| v.iter().map(|(b, one)| Some((b.iter().map(|x| x.lib()).collect(), *one))).collect()).collect();
                    if *flush {
                        acts.push(vec![None, None]);
                    }
                    let outs = together(&acts, |a| {
                        let ch = t.get_main_chain();
                        match a {
                            None => must("flush", || block_on(t.flush())),
                            Some((b, true)) => b.iter().try_for_each(|x| must("add_transaction", || ch.add_transaction(x))),
                            Some((b, false)) => must("add_transactions", || ch.add_transactions(b)),
                        }
                    });
                    for r in outs.into_iter().flatten() {
                        r?;
                    }
                    for x in lists.iter().flatten().flat_map(|x| &x.0) {
                        note(x, &mut model, &mut order)?;
                    }
                    cx.label("several threads");
                }
                Op::Again(k) => {
                    if !order.is_empty() {
                        let x = order[*k as usize % order.len()].clone();
                        must("add_transaction", || ch.add_transaction(&x.lib()))?;
                        note(&x, &mut model, &mut order)?;
                        special = true;
                        cx.label("repeat");
                    }
                }
                Op::Twin(k, f) => {
                    if !order.is_empty() {
                        let x = twin(&order[*k as usize % order.len()], *f);
                        must("add_transaction", || ch.add_transaction(&x.lib()))?;
                        note(&x, &mut model, &mut order)?;
                        special = true;
                        cx.label("twin");
                    }
                }
                Op::Flush => must("flush", || block_on(t.flush()))?,
                Op::Reopen => {
                    must("flush", || block_on(t.flush()))?;
                    drop(ch);
                    drop(t);
                    t = open_tree(&dir)?;
                    special = true;
                    cx.label("reopened");
                    touched.extend(model.keys().copied());
                }
                Op::Look(b) => {
                    let h: r::H = b.a();
                    if !model.contains_key(&h) {
                        lookup(&ch, &h, None)?;
                    }
                }
            }
            let ch = t.get_main_chain();
            for h in touched.iter().rev().take(400) {
                lookup(&ch, h, model.get(h))?;
            }
            ensure!(main_blocks(&ch, 0)? == blocks, "storing transactions changed the chain");
        }
        let ch = t.get_main_chain();
        for (h, w) in &model {
            lookup(&ch, h, Some(w))?;
            // hashes that were never stored
            let mut g = *h;
            g[31] ^= 1;
            lookup(&ch, &g, model.get(&g))?;
            let un = w.0.hash_without_signature();
            lookup(&ch, &un, model.get(&un))?;
        }
        ensure!(funds(&t, &accounts(7))? == f0, "storing transactions changed balances");
        if model.len() >= 3 && special {
            cx.nontrivial();
        }
        cx.units += model.len() as u64;
        Ok(())
    }
}
