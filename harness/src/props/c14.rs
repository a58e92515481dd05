use super::c13::*;
use super::common::Addr;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

pub struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// anchors given at the openings of each chain
    anchors: Vec<B>,
    jump: Option<N>,
    ops: Vec<(u8, Op)>,
}

fn owner(i: u8) -> String {
    let mut a: Addr = addr(4 + i / 2);
    if i % 2 == 1 {
        a[0] ^= 1;
    }
    hex::encode(a)
}

fn config(root: &Path, o: u8) -> PathBuf {
    root.join("DERIVATIVES").join(owner(o)).join("Chain.config")
}

impl Property for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    fn rule() -> &'static str {
        "histories of 1..40 steps over two derivative chains of the same store (owners differing in one bit): appends with random fields, runs of appends, wrong heights, repeats, flushes, closing with and without a flush, opening with another anchor, large heights; after every step both chains compared with their models; non-trivial: at least 3 appends to one chain and a refused block, a lost block or a reopen"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4_500, 100_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let o = ops(40, t.pick(400, 4000), false);
        let o = o.prop_flat_map(|v| {
            let n = v.len();
            (Just(v), proptest::collection::vec(prop_oneof![2 => Just(0u8), 1 => Just(1u8)], n)).prop_map(|(v, w)| w.into_iter().zip(v).collect::<Vec<_>>())
        });
        (proptest::collection::vec(arr(32), 2..6), jumps(), o).prop_map(|(anchors, jump, ops)| Case { anchors, jump, ops }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let turn = std::cell::Cell::new(0usize);
        let open = |o: u8| -> Result<Any, String> {
            let a = &c.anchors[turn.get() % c.anchors.len()];
            turn.set(turn.get() + 1);
            Ok(Any::Deriv(open_deriv(&dir, &owner(o), &a.a())?))
        };
        let anchor = |x: &Any| match x {
            Any::Deriv(d) => *d.genesis_hash,
            _ => unreachable!(),
        };
        let mut w = vec![];
        // anchor: the one in force, and whether a flush made it permanent
        let mut anchors: Vec<([u8; 32], bool)> = vec![];
        for o in 0..2u8 {
            let ch = open(o)?;
            ensure!(anchor(&ch) == c.anchors[(turn.get() - 1) % c.anchors.len()].a::<32>(), "a new chain does not keep the anchor it was given");
            anchors.push((anchor(&ch), false));
            w.push(World::new(ch, U256::zero())?);
        }
        if let Some(j) = &c.jump {
            jump(&config(&dir, 0), &mut w[0], j.0, &|| open(0))?;
            anchors[0].1 = true;
            ensure!(anchor(w[0].chain.as_ref().unwrap()) == anchors[0].0, "the anchor changed by reopening");
            cx.label("large height");
        }
        for (o, x) in &c.ops {
            let o = (*o % 2) as usize;
            let given = c.anchors[turn.get() % c.anchors.len()].a::<32>();
            w[o].step(x, &|| open(o as u8))?;
            let now = anchor(w[o].chain.as_ref().unwrap());
            match x {
                Op::Flush => anchors[o].1 = true,
                Op::Reopen { flush } => {
                    if *flush {
                        anchors[o].1 = true;
                    }
                    if !anchors[o].1 {
                        // never flushed: the anchor is taken anew (or the first one is kept)
                        ensure!(now == given || now == anchors[o].0, "the anchor is neither the first one given nor the latest");
                        anchors[o].0 = now;
                    }
                }
                _ => {}
            }
            ensure!(now == anchors[o].0, "the anchor changed although it was flushed");
            w[1 - o].check_near().map_err(|e| format!("the chain of the other owner: {e}"))?;
            ensure!(anchor(w[1 - o].chain.as_ref().unwrap()) == anchors[1 - o].0, "the anchor of another owner's chain changed");
        }
        for x in &w {
            x.check_full()?;
        }
        let ops: Vec<Op> = c.ops.iter().map(|x| x.1.clone()).collect();
        let k = kinds(&ops);
        let big = if w[0].stats.0 >= w[1].stats.0 { &w[0] } else { &w[1] };
        label_stats(big, cx, &k);
        cx.units += c.ops.len() as u64;
        Ok(())
    }
}
