use super::c02::{tx, Tx};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use blockchaintree::errors::TransactionError;
use blockchaintree::transaction::{Transactionable, TransactionableItem};
use blockchaintree::txpool::TxPool;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub struct C22;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    Real(Tx),
    /// a transaction with a chosen hash, to bring out ties
    Chosen { ts: u64, hash: B },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Push(u16),
    Pop,
    Drain,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    items: Vec<Item>,
    ops: Vec<Op>,
    capacity: Option<u8>,
    shuffle: u64,
    /// so many more, added first
    #[serde(default)]
    more: (u16, u64),
}

struct Chosen {
    ts: u64,
    hash: [u8; 32],
}
impl Transactionable for Chosen {
    fn hash_without_signature(&self) -> [u8; 32] {
        self.hash
    }
    fn verify(&self) -> error_stack::Result<bool, TransactionError> {
        Ok(true)
    }
    fn dump(&self) -> error_stack::Result<Vec<u8>, TransactionError> {
        Ok(self.hash.to_vec())
    }
    fn hash(&self) -> [u8; 32] {
        self.hash
    }
    fn get_dump_size(&self) -> usize {
        32
    }
    fn parse(_: &[u8]) -> error_stack::Result<Self, TransactionError> {
        unreachable!()
    }
    fn get_sender(&self) -> &[u8; 33] {
        &[2; 33]
    }
    fn get_receiver(&self) -> &[u8; 33] {
        &[3; 33]
    }
    fn get_timestamp(&self) -> u64 {
        self.ts
    }
    fn get_signature(&self) -> &[u8; 64] {
        &[0; 64]
    }
    fn get_amount(&self) -> Option<U256> {
        None
    }
    fn get_data(&self) -> Option<&[u8]> {
        None
    }
}
impl Item {
    fn make(&self) -> TransactionableItem {
        match self {
            Item::Real(t) => Box::new(t.lib()),
            Item::Chosen { ts, hash } => Box::new(Chosen { ts: *ts, hash: hash.a() }),
        }
    }
}

type Key = ([u8; 32], u64);
fn key(t: &TransactionableItem) -> Key {
    (t.hash(), t.get_timestamp())
}

fn agree(p: &TxPool, model: &BTreeMap<[u8; 32], u64>, all: &[Key]) -> Result<(), String> {
    ensure!(p.len() == model.len(), "the pool reports {} transactions, it holds {}", p.len(), model.len());
    ensure!(p.is_empty() == model.is_empty(), "emptiness does not agree with the contents");
    for (h, _) in all {
        ensure!(p.transaction_exists(h) == model.contains_key(h), "membership does not agree with the contents");
    }
    let mut it: Vec<Key> = p.transactions_iter().map(key).collect();
    it.sort();
    let want: Vec<Key> = model.iter().map(|(h, t)| (*h, *t)).collect();
    ensure!(it == want, "iteration yields {} transactions, not the {} in the pool", it.len(), want.len());
    Ok(())
}

fn drain(p: &mut TxPool) -> Vec<Key> {
    let mut v = vec![];
    while let Some((h, t)) = p.pop() {
        v.push((h, t.get_timestamp()));
        if v.len() > 10_000 {
            break;
        }
    }
    v
}

fn order(a: &TransactionableItem, b: &TransactionableItem) -> Result<Ordering, String> {
    let o = a.cmp(b);
    ensure!(b.cmp(a) == o.reverse(), "comparison is not antisymmetric");
    ensure!(a.partial_cmp(b) == Some(o), "partial comparison disagrees");
    ensure!((a == b) == (o == Ordering::Equal) && (a != b) == (o != Ordering::Equal), "equality does not agree with the ordering ({o:?})");
    ensure!((a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater), "comparison operators disagree with the ordering");
    if key(a) == key(b) {
        ensure!(o == Ordering::Equal, "a pool item is not equal to itself");
    }
    if a.hash() != b.hash() {
        ensure!(o != Ordering::Equal, "different transactions compare as equal");
    }
    Ok(o)
}

impl Property for C22 {
    type Case = Case;
    const ID: &'static str = "C22";
    fn rule() -> &'static str {
        "up to 30 transactions, one in 400 times up to 400 more (real ones and ones with chosen hashes that share prefixes, words or timestamps), histories of 1..80 pushes, pops and drains against a map model, then the same set pushed in three orders and popped, and every pair and triple of a sample compared; non-trivial: two transactions in the pool with equal timestamps"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(240_000, 4_800_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let ts = || prop_oneof![5 => 0u64..4, 1 => u64v()];
        // hashes that differ in few positions
        let hash = prop_oneof![
            3 => (0u8..3, 0usize..32, any::<u8>()).prop_map(|(base, i, x)| {
                let mut h = vec![[0, 0x55, 0xff][base as usize]; 32];
                h[i] = x;
                B(h)
            }),
            2 => (any::<[u8; 4]>()).prop_map(|w| B((0..32).map(|i| w[i / 8] & 3).collect())),
            1 => arr(32),
        ];
        let item = prop_oneof![
            2 => (tx(40), ts()).prop_map(|(mut t, ts)| {
                t.ts = ts;
                Item::Real(t)
            }),
            4 => (ts(), hash).prop_map(|(ts, hash)| Item::Chosen { ts, hash }),
        ];
        let o = prop_oneof![10 => any::<u16>().prop_map(Op::Push), 5 => Just(Op::Pop), 1 => Just(Op::Drain)];
        let more = prop_oneof![400 => Just((0u16, 0u64)), 1 => (1u16..400, any::<u64>())];
        (proptest::collection::vec(item, 1..30), proptest::collection::vec(o, 1..80), proptest::option::of(0u8..40), any::<u64>(), more)
            .prop_map(|(items, ops, capacity, shuffle, more)| Case { items, ops, capacity, shuffle, more })
            .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        // one transaction per hash: the first with it
        let mut items: Vec<&Item> = vec![];
        let mut all: Vec<Key> = vec![];
        let more: Vec<Item> = (0..c.more.0 as u64)
            .map(|i| {
                let b = expand(c.more.1.wrapping_add(i), 33, 0);
                Item::Chosen { ts: b[32] as u64 / 4, hash: B(b[..32].to_vec()) }
            })
            .collect();
        for i in c.items.iter().chain(&more) {
            let k = key(&i.make());
            if !all.iter().any(|x| x.0 == k.0) {
                items.push(i);
                all.push(k);
            }
        }
        let mut p = match c.capacity {
            Some(n) => TxPool::with_capacity(n as usize),
            None => TxPool::new(),
        };
        let mut model: BTreeMap<[u8; 32], u64> = BTreeMap::new();
        agree(&p, &model, &all)?;
        let first = (0..c.more.0.min(items.len() as u16)).map(|i| Op::Push(items.len() as u16 - 1 - i));
        if c.more.0 > 0 {
            cx.label("large pool");
        }
        for o in first.collect::<Vec<_>>().iter().chain(&c.ops) {
            match o {
                Op::Push(i) => {
                    let i = *i as usize % items.len();
                    let (h, ts) = all[i];
                    let fresh = !model.contains_key(&h);
                    let got = guard(|| p.push(items[i].make()))?;
                    ensure!(got == fresh, "adding a transaction that is {}in the pool gave {got}", if fresh { "not " } else { "" });
                    if fresh {
                        if model.values().any(|t| *t == ts) {
                            cx.nontrivial();
                        }
                        model.insert(h, ts);
                    } else {
                        cx.label("duplicate");
                    }
                }
                Op::Pop | Op::Drain => loop {
                    let got = guard(|| p.pop())?;
                    match got {
                        None => {
                            ensure!(model.is_empty(), "nothing was popped from a pool of {}", model.len());
                            break;
                        }
                        Some((h, t)) => {
                            ensure!(t.hash() == h, "a transaction was popped under another hash");
                            let ts = t.get_timestamp();
                            ensure!(model.remove(&h) == Some(ts), "a transaction was popped that is not in the pool");
                            if let Some(m) = model.values().min() {
                                ensure!(*m >= ts, "a transaction of time {ts} was popped before one of time {m}");
                            }
                        }
                    }
                    if matches!(o, Op::Pop) {
                        break;
                    }
                    agree(&p, &model, &all)?;
                },
            }
            agree(&p, &model, &all)?;
        }
        // the order of pops is a function of the set
        let rest: Vec<usize> = (0..items.len()).filter(|i| model.contains_key(&all[*i].0)).collect();
        let a = drain(&mut p);
        let mut orders = vec![rest.clone(), rest.iter().rev().copied().collect::<Vec<_>>()];
        let mut sh = rest.clone();
        let mut x = c.shuffle;
        for i in (1..sh.len()).rev() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            sh.swap(i, (x >> 33) as usize % (i + 1));
        }
        orders.push(sh);
        for o in orders {
            let mut q = TxPool::new();
            for i in o {
                ensure!(q.push(items[i].make()), "a new transaction was refused");
            }
            let b = drain(&mut q);
            ensure!(a == b, "the same {} transactions were popped in another order after being added in another order", a.len());
        }
        // ordering laws
        let built: Vec<TransactionableItem> = items.iter().take(9).map(|i| i.make()).collect();
        for a in &built {
            for b in &built {
                let ab = order(a, b)?;
                for d in &built {
                    if ab != Ordering::Greater && b.cmp(d) != Ordering::Greater {
                        ensure!(a.cmp(d) != Ordering::Greater, "comparison is not transitive");
                    }
                }
                cx.units += 1;
            }
        }
        Ok(())
    }
}
