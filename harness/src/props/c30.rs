use super::c01::{info, Info};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use blockchaintree::block::{self, BlockArc};
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::sync::Arc;

pub struct C30;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// kind (0 transaction, 1 summary, 2 derivative) and fields
    blocks: Vec<(u8, Info)>,
}

fn lib(k: u8, i: &Info) -> BlockArc {
    match k % 3 {
        0 => Arc::new(block::TransactionBlock::new(U256::from(i.ts % 7), i.lib(), i.pow.a(), vec![i.prev.a()])),
        1 => Arc::new(block::SummarizeBlock { default_info: i.lib(), merkle_tree_root: i.prev.a() }),
        _ => Arc::new(block::DerivativeBlock { default_info: i.lib() }),
    }
}

impl Property for C30 {
    type Case = Case;
    const ID: &'static str = "C30";
    fn rule() -> &'static str {
        "2..16 blocks of all kinds with boundary-biased fields, timestamps drawn from a few values, neighbours and extremes, or repeated; every pair compared by every operator, the list sorted and its minimum and maximum taken; non-trivial: two blocks of different kinds with the same timestamp and two with different ones"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(120_000, 3_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let ts = prop_oneof![4 => 0u64..4, 2 => u64v(), 1 => (0u64..3).prop_map(|x| u64::MAX - x), 1 => (0u64..3).prop_map(|x| (1 << 63) - 1 + x), 1 => (0u64..3).prop_map(|x| (1 << 32) - 1 + x)];
        let b = (0u8..3, info(), proptest::option::weighted(0.8, ts)).prop_map(|(k, mut i, t)| {
            if let Some(t) = t {
                i.ts = t;
            }
            (k, i)
        });
        proptest::collection::vec(b, 2..16).prop_map(|blocks| Case { blocks }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let v: Vec<BlockArc> = c.blocks.iter().map(|(k, i)| lib(*k, i)).collect();
        let ts: Vec<u64> = c.blocks.iter().map(|b| b.1.ts).collect();
        let (mut equal, mut other) = (false, false);
        for i in 0..v.len() {
            for j in 0..v.len() {
                let (a, b) = (&*v[i], &*v[j]);
                let want = ts[i].cmp(&ts[j]);
                let what = format!("blocks with timestamps {} and {}", ts[i], ts[j]);
                let (c1, c2, eq, lt, ge) = guard(|| (a.cmp(b), a.partial_cmp(b), a == b, a < b, a >= b))?;
                ensure!(c1 == want, "{what} compare as {c1:?}");
                ensure!(c2 == Some(want), "{what} compare partially as {c2:?}");
                ensure!(eq == (want == Ordering::Equal), "{what} are {}equal", if eq { "" } else { "not " });
                ensure!(lt == (want == Ordering::Less) && ge == (want != Ordering::Less), "{what}: the comparison operators disagree with the ordering");
                if i != j && c.blocks[i].0 % 3 != c.blocks[j].0 % 3 {
                    equal |= want == Ordering::Equal;
                }
                other |= want != Ordering::Equal;
                cx.units += 1;
            }
        }
        let mut s = v.clone();
        guard(|| s.sort())?;
        let got: Vec<u64> = s.iter().map(|b| b.get_info().timestamp).collect();
        let mut sorted = ts.clone();
        sorted.sort();
        ensure!(got == sorted, "sorted blocks have the timestamps {got:?}");
        ensure!(v.iter().max().map(|b| b.get_info().timestamp) == sorted.last().copied(), "the maximum is not a block with the latest timestamp");
        ensure!(v.iter().min().map(|b| b.get_info().timestamp) == sorted.first().copied(), "the minimum is not a block with the earliest timestamp");
        if equal && other {
            cx.nontrivial();
        }
        cx.label(format!("{:02} blocks", c.blocks.len()));
        Ok(())
    }
}
