use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use blockchaintree::merkletree::MerkleTree;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C06;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    items: Hashes,
    pick: u64,
}

impl Property for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    fn rule() -> &'static str {
        "lists of 0..4200 hashes (derived, structured, duplicated), about one in 15,000 with up to 70,000; root compared with an independent recursive definition, proofs taken for every position (for lists over 150 items: first, last, powers of two and 24 drawn ones); non-trivial: at least 2 items"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(480_000, 9_600_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let long = (hashes(4200), 4_200usize..70_000).prop_map(|(mut h, n)| {
            h.len = n;
            h
        });
        let items = prop_oneof![12_000 => hashes(140), 2_000 => hashes(700), 1_000 => hashes(4200), 1 => long];
        (items, any::<u64>()).prop_map(|(items, pick)| Case { items, pick }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let list = c.items.list();
        let n = list.len();
        if n > 1 {
            cx.nontrivial();
        }
        cx.label(match n {
            0 => "empty",
            1 => "1 item",
            2..=16 => "2-16 items",
            17..=150 => "17-150 items",
            151..=4_200 => "151-4200 items",
            _ => ">4200 items",
        });
        let tree = guard(|| MerkleTree::build_tree(&list))?;
        let root = *tree.get_root();
        ensure!(root == r::merkle_root(&list), "root of {n} items is {}, expected {}", hex::encode(root), hex::encode(r::merkle_root(&list)));
        let depth = r::merkle_width(n).trailing_zeros() as usize;
        let mut pos: Vec<usize> = if n <= 150 {
            (0..n).collect()
        } else {
            let e = expand(c.pick, 24 * 8, 0);
            let mut v: Vec<usize> = e.chunks(8).map(|b| u64::from_le_bytes(b.try_into().unwrap()) as usize % n).collect();
            v.extend([0, 1, n - 1, n - 2, n / 2]);
            let mut p = 1;
            while p < n {
                v.extend([p, p - 1]);
                p *= 2;
            }
            v
        };
        pos.sort();
        pos.dedup();
        for i in pos {
            let proof = guard(|| tree.get_proof(&list[i])).map_err(|e| format!("proof of item {i} of {n}: {e}"))?;
            ensure!(proof.len() == depth + 1, "proof of item {i} of {n} has {} elements, expected {}", proof.len(), depth + 1);
            ensure!(*proof[depth] == root, "the last proof element is not the root");
            let ok = guard(|| MerkleTree::verify_proof(&list[i], &root, &proof[..depth]))?;
            ensure!(ok, "the proof of item {i} of {n} does not verify");
            cx.units += 1;
        }
        Ok(())
    }
}
