use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use blockchaintree::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C08;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Diff {
    /// leading zeros relative to those of the actual hash, with a random tail
    Near(i16, B),
    Any(B),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prev: B,
    txs: Hashes,
    nonce: B,
    /// search nonces until the hash has this many leading zero bits
    mined: Option<u8>,
    diff: Diff,
    zeros_in: B,
}

impl Property for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    fn rule() -> &'static str {
        "random previous hash, 0..200 transactions, nonce of 0..80 bytes or mined to up to 15 zero bits, difficulty with as many leading zeros as the hash, up to 3 more or fewer, or arbitrary; acceptance compared with the definition; the counter compared on byte strings with long zero runs; non-trivial: the difficulty is within one bit of the hash"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(200_000, 4_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let diff = prop_oneof![
            6 => (-3i16..=3, arr(32)).prop_map(|(d, b)| Diff::Near(d, b)),
            1 => arr(32).prop_map(Diff::Any),
        ];
        let zin = (0usize..70, arr(40)).prop_map(|(z, b)| {
            let mut v = vec![0u8; z];
            v.extend(b.0);
            v.truncate(70);
            B(v)
        });
        let zin = prop_oneof![3 => zin, 1 => bytes(70), 1 => (0usize..70).prop_map(|n| B(vec![0; n]))];
        let txs = prop_oneof![4 => hashes(12), 1 => hashes(200)];
        (arr(32), txs, bytes(80), proptest::option::weighted(0.3, 1u8..=15), diff, zin)
            .prop_map(|(prev, txs, nonce, mined, diff, zeros_in)| Case { prev, txs, nonce, mined, diff, zeros_in })
            .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let z = guard(|| tools::count_leading_zeros(&c.zeros_in.0))?;
        ensure!(z == r::leading_zero_bits(&c.zeros_in.0), "{z} leading zero bits counted in {:?}", c.zeros_in);
        let prev: [u8; 32] = c.prev.a();
        let txs = c.txs.list();
        let nonce = match c.mined {
            None => c.nonce.0.clone(),
            Some(k) => {
                cx.label("mined nonce");
                r::mine(&prev, &r::difficulty_of(k as u32), &txs, c.txs.seed, true).to_vec()
            }
        };
        let h = r::pow_hash_root(&prev, &r::merkle_root(&txs), &nonce);
        let have = r::leading_zero_bits(&h) as i32;
        let diff: [u8; 32] = match &c.diff {
            Diff::Any(b) => b.a(),
            Diff::Near(d, tail) => {
                let want = (have + *d as i32).clamp(0, 256) as u32;
                let mask = r::difficulty_of(want);
                let mut t: [u8; 32] = tail.a();
                for i in 0..32 {
                    t[i] &= mask[i];
                }
                if want < 256 {
                    t[(want / 8) as usize] |= 0x80 >> (want % 8);
                }
                t
            }
        };
        let need = r::leading_zero_bits(&diff) as i32;
        let expect = have >= need;
        if (have - need).abs() <= 1 {
            cx.nontrivial();
        }
        cx.label(if have == need { "exactly enough" } else if have == need - 1 { "one bit short" } else if expect { "enough" } else { "short" });
        let got = guard(|| tools::check_pow(&prev, &diff, &txs, &nonce))?;
        ensure!(got == expect, "nonce {} although the hash has {have} leading zero bits and the difficulty {need}", if got { "accepted" } else { "refused" });
        Ok(())
    }
}
