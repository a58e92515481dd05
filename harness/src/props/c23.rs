use super::c16::{some_op, Live, Op};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C23;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// start this many blocks before an epoch boundary
    epoch: Option<u8>,
    /// operation, and what the second node does afterwards: 0 nothing, 1 flush, 2 flush, close and open, 3 answers queries
    ops: Vec<(Op, u8)>,
    depth: u8,
    #[serde(default)]
    /// a third tree in the same process has its own history meanwhile
    bystander: bool,
}

/// Questions about things that do not exist.
fn query(l: &Live, k: u8) -> Result<(), String> {
    let ch = l.t.get_main_chain();
    let h = guard(|| ch.get_height())?;
    for i in 0..4u8 {
        let who = addr(20 + (k.wrapping_add(i)) % 100);
        ensure!(must("get_amount", || l.t.get_amount(&who))?.is_zero(), "an account nobody paid has coins");
        ensure!(must("get_gas", || l.t.get_gas(&who))?.is_zero(), "an account nobody paid has gas");
        drop(guard(|| l.t.sub_amount(&who, 1.into())));
        drop(guard(|| l.t.sub_gas(&who, 1.into())));
        let x = r::sha(&[k, i]);
        ensure!(!must("transaction_exists", || ch.transaction_exists(&x))?, "an unknown transaction exists");
        ensure!(must("find_by_hash", || ch.find_by_hash(&x))?.is_none(), "an unknown block is found");
        ensure!(must("find_raw_by_height", || ch.find_raw_by_height(&(h + U256::from(i))))?.is_none(), "a block above the chain is found");
        for c in l.chains.values() {
            ensure!(must("find_by_hash", || c.find_by_hash(&x))?.is_none(), "an unknown derivative block is found");
        }
    }
    must("get_last_block", || ch.get_last_block()).map(|_| ())
}

impl Property for C23 {
    type Case = Case;
    const ID: &'static str = "C23";
    fn rule() -> &'static str {
        "histories of 1..30 operations (coin and gas changes, main and derivative emission, stored transactions, rarely large ones; one case in three across an epoch boundary) applied to two trees in directories of different depth, one of them flushed, flushed and reopened, or asked about absent accounts, blocks and transactions at random points, in three cases of ten while a third tree in the same process goes through another history; snapshots of all blocks, hashes, anchors, transactions and balances compared at the end and in between; non-trivial: a reopen between two block emissions"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(900, 25_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let after = prop_oneof![8 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 2 => Just(3u8)];
        (proptest::option::weighted(0.3, 1u8..3), proptest::collection::vec((some_op(), after), 1..30), 0u8..6, prop::bool::weighted(0.3)).prop_map(|(epoch, ops, depth, bystander)| Case { epoch, ops, depth, bystander }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let da = cx.dir();
        let mut db = cx.dir();
        for i in 0..c.depth {
            db = db.join(format!("d{i}"));
        }
        std::fs::create_dir_all(&db).map_err(|e| format!("HARNESS {e}"))?;
        let mut a = Live::open(&da, &[])?;
        let mut b = Live::open(&db, &[])?;
        if let Some(lead) = c.epoch {
            a = a.jump(&da, 1_000_000 - lead as u64 - 1, 1)?;
            b = b.jump(&db, 1_000_000 - lead as u64 - 1, 1)?;
        }
        let mut z = if c.bystander {
            cx.label("a third tree in the process");
            Some(Live::open(&cx.dir(), &[])?)
        } else {
            None
        };
        let (mut blocks, mut reopened) = (0, false);
        for (i, (o, after)) in c.ops.iter().enumerate() {
            a.apply(o)?;
            if let Some(z) = &mut z {
                z.apply(&c.ops[c.ops.len() - 1 - i].0)?;
            }
            b.apply(o)?;
            if matches!(o, Op::Main { .. } | Op::Deriv { .. }) {
                blocks += 1;
                if reopened {
                    cx.nontrivial();
                }
            }
            match after {
                0 => {}
                1 => b.flush()?,
                3 => {
                    query(&b, i as u8)?;
                    cx.label("queried");
                }
                _ => {
                    b.flush()?;
                    b = b.reopen(&db)?;
                    reopened = blocks > 0;
                    cx.label("reopened");
                }
            }
            if i + 1 == c.ops.len() || *after == 2 {
                let (x, y) = (a.snapshot()?, b.snapshot()?);
                if let Some(d) = x.differs(&y) {
                    return Err(format!("two nodes with the same history of {} operations differ: {d}", i + 1));
                }
                cx.units += 1;
            }
        }
        if c.epoch.is_some() && blocks > 3 {
            cx.label("epoch boundary near");
        }
        // the hashes and the last blocks the nodes report themselves
        for h in a.from..a.from + a.snapshot()?.main.len() as u64 {
            let (p, q) = (a.t.get_main_chain(), b.t.get_main_chain());
            let p = must("find_by_height", || p.find_by_height(&h.into()))?.ok_or("a block is missing")?;
            let q = must("find_by_height", || q.find_by_height(&h.into()))?.ok_or("a block is missing")?;
            let (p, q) = (must("hash", || p.hash())?, must("hash", || q.hash())?);
            ensure!(p == q, "two nodes with the same history report other hashes at height {h}");
            let raw = must("find_raw_by_hash", || a.t.get_main_chain().find_raw_by_hash(&p))?;
            ensure!(raw.is_some_and(|x| r::sha(&x) == p), "a block is not found under the hash it reports");
        }
        Ok(())
    }
}
