use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use blockchaintree::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C09;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// all 256 reachable difficulties for one pair of timestamps
    Pair { prev: u64, ts: u64 },
    Near { prev: u64, gap: i64 },
    Any { diff: B, prev: u64, gap: i64 },
    Sequence { start: u16, gaps: Vec<i64>, ts: u64 },
}

fn all_canonical(prev: u64, ts: u64) -> Result<(), String> {
    for z in 1..=256u32 {
        let mut d = r::difficulty_of(z);
        guard(|| tools::recalculate_difficulty(prev, ts, &mut d)).map_err(|e| format!("retargeting from {z} zero bits, timestamps {prev} -> {ts}: {e}"))?;
        let e = r::difficulty_of(r::retarget_zeros(z, prev, ts));
        ensure!(d == e, "retargeting from {z} zero bits, timestamps {prev} -> {ts}, gave {} instead of {}", hex::encode(d), hex::encode(e));
        let fee = guard(|| tools::recalculate_fee(&d))?;
        ensure!(fee == r::fee_of(&d), "fee {fee} for a difficulty of {} zero bits", r::leading_zero_bits(&d));
    }
    Ok(())
}

impl Property for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    fn rule() -> &'static str {
        "timestamp pairs (gaps around 600, zero, negative, huge) applied to all 256 reachable difficulties; arbitrary 32-byte difficulties; sequences of up to 60 retargets; fee compared on each; non-trivial: gap within 5 of 600, reversed timestamps, or a sequence of at least 5 steps, or an arbitrary difficulty with its high bit set in some leading byte"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(600_000, 12_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let high = (0usize..32, arr(32), prop_oneof![Just(0xffu8), Just(0x80), Just(0x7f), Just(0xfe), 0x80u8..=0xff, 1u8..0x80]).prop_map(|(z, b, x)| {
            let mut v = b.0;
            for i in v.iter_mut().take(z) {
                *i = 0;
            }
            v[z] = x;
            B(v)
        });
        prop_oneof![
            1 => (u64v(), u64v()).prop_map(|(prev, ts)| Case::Pair { prev, ts }),
            3 => (u64v(), gap()).prop_map(|(prev, gap)| Case::Near { prev, gap }),
            4 => (prop_oneof![1 => arr(32), 3 => high], u64v(), gap()).prop_map(|(diff, prev, gap)| Case::Any { diff, prev, gap }),
            3 => (1u16..=256, proptest::collection::vec(gap(), 1..60), 0u64..4_000_000_000).prop_map(|(start, gaps, ts)| Case::Sequence { start, gaps, ts }),
        ]
        .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match c {
            Case::Pair { prev, ts } => {
                cx.label("pair");
                if ts < prev {
                    cx.nontrivial();
                    cx.label("reversed timestamps");
                }
                cx.units += 256;
                all_canonical(*prev, *ts)
            }
            Case::Near { prev, gap } => {
                let ts = add_gap(*prev, *gap);
                let g = ts as i128 - *prev as i128;
                cx.label(if g < 0 { "reversed timestamps" } else if g == 600 { "gap 600" } else if (g - 600).abs() == 1 { "gap 599/601" } else { "other gap" });
                if g < 0 || (g - 600).abs() <= 5 {
                    cx.nontrivial();
                }
                cx.units += 256;
                all_canonical(*prev, ts)
            }
            Case::Any { diff, prev, gap } => {
                let ts = add_gap(*prev, *gap);
                let d0: [u8; 32] = diff.a();
                let mut d = d0;
                if d0.iter().find(|b| **b != 0).is_some_and(|b| *b >= 0x80) {
                    cx.nontrivial();
                    cx.label("arbitrary difficulty, high bit set");
                } else {
                    cx.label("arbitrary difficulty");
                }
                guard(|| tools::recalculate_difficulty(*prev, ts, &mut d)).map_err(|e| format!("retargeting {}: {e}", hex::encode(d0)))?;
                let (z0, z) = (r::leading_zero_bits(&d0), r::leading_zero_bits(&d));
                let g = ts as i128 - *prev as i128;
                if g < 600 {
                    ensure!(z > z0 || z0 == 256, "a fast block did not harden the difficulty {}: {}", hex::encode(d0), hex::encode(d));
                } else if g > 600 {
                    ensure!(z <= z0, "a slow block hardened the difficulty {} to {}", hex::encode(d0), hex::encode(d));
                    ensure!(z + 1 >= z0, "a slow block eased the difficulty {} by more than a bit, to {}", hex::encode(d0), hex::encode(d));
                } else {
                    ensure!(d == d0, "the difficulty changed at exactly 600 seconds: {} to {}", hex::encode(d0), hex::encode(d));
                }
                if let Some(e) = r::retarget(&d0, *prev, ts) {
                    ensure!(d == e, "retargeting {} gave {} instead of {}", hex::encode(d0), hex::encode(d), hex::encode(e));
                }
                let fee = guard(|| tools::recalculate_fee(&d0))?;
                ensure!(fee == r::fee_of(&d0), "fee {fee} for a difficulty of {z0} zero bits");
                Ok(())
            }
            Case::Sequence { start, gaps, ts } => {
                cx.label("sequence");
                if gaps.len() >= 5 {
                    cx.nontrivial();
                }
                let mut z = *start as u32;
                let mut d = r::difficulty_of(z);
                let mut t = *ts;
                for g in gaps {
                    let n = add_gap(t, *g);
                    guard(|| tools::recalculate_difficulty(t, n, &mut d))?;
                    z = r::retarget_zeros(z, t, n);
                    ensure!(d == r::difficulty_of(z), "after a sequence of retargets the difficulty is {}, expected {z} zero bits", hex::encode(d));
                    t = n;
                    cx.units += 1;
                }
                Ok(())
            }
        }
    }
}
