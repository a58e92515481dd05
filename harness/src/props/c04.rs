use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use blockchaintree::tools;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C04;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prefix: B,
    n: N,
    big: B,
    suffix: B,
}

impl Property for C04 {
    type Case = Case;
    const ID: &'static str = "C04";
    fn rule() -> &'static str {
        "a 256-bit number and a big integer of 0..300 bytes, appended to random existing bytes, followed by random bytes; non-trivial: number with at least 2 bytes, or zero, or a big integer of at least 2 bytes; distinct inputs counted"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_600_000, 32_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let big = prop_oneof![3 => bytes(300), 2 => (240usize..300).prop_flat_map(arr), 2 => arr(255), 2 => arr(256)];
        (bytes(50), num(), big, bytes(50)).prop_map(|(prefix, n, big, suffix)| Case { prefix, n, big, suffix }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let n = c.n.0;
        if n.is_zero() || n.bits() > 8 || c.big.0.len() > 1 {
            cx.nontrivial();
        }
        cx.label(format!("{:02}-byte number", n.bits().div_ceil(8)));
        let mut buf = c.prefix.0.clone();
        must("dump_u256", || tools::dump_u256(&n, &mut buf))?;
        let at = c.prefix.0.len();
        ensure!(buf[..at] == c.prefix.0[..], "dump_u256 changed the bytes before it");
        let len = buf.len() - at;
        ensure!(tools::u256_size(&n) == len, "size function says {} for {n}, encoding has {len} bytes", tools::u256_size(&n));
        ensure!(len == 1 + n.bits().div_ceil(8), "encoding of {n} has {len} bytes: leading zeros or missing bytes");
        buf.extend_from_slice(&c.suffix.0);
        let (v, used) = must("load_u256", || tools::load_u256(&buf[at..]))?;
        ensure!(v == n, "{n} decoded as {v}");
        ensure!(used + 1 == len, "load_u256 reports {used} value bytes, encoding has {}", len - 1);

        let big = BigUint::from_bytes_be(&c.big.0);
        let blen = big.to_bytes_be().len();
        let mut buf = c.prefix.0.clone();
        match op("dump_biguint", || tools::dump_biguint(&big, &mut buf))? {
            Ok(()) => {
                ensure!(blen <= 255, "a big integer of {blen} bytes was encoded");
                cx.label("big integer encoded");
                ensure!(buf[..at] == c.prefix.0[..], "dump_biguint changed the bytes before it");
                let len = buf.len() - at;
                ensure!(tools::bigint_size(&big) == len, "size function says {}, encoding of the big integer has {len} bytes", tools::bigint_size(&big));
                buf.extend_from_slice(&c.suffix.0);
                let (v, used) = must("load_biguint", || tools::load_biguint(&buf[at..]))?;
                ensure!(v == big, "big integer {big} decoded as {v}");
                ensure!(used == len, "load_biguint reports {used} bytes, encoding has {len}");
            }
            Err(_) => {
                ensure!(blen > 255, "a big integer of {blen} bytes was refused");
                cx.label("big integer refused");
                ensure!(buf == c.prefix.0, "a refused encoding changed the buffer");
            }
        }
        Ok(())
    }
}
