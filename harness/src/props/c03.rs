use super::c01::{body, info, same_info, Body, Info};
use super::c02::{same_tx, tx, Tx};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use blockchaintree::block::{self, Block};
use blockchaintree::dump_headers::Headers;
use blockchaintree::tools;
use blockchaintree::transaction::{Transaction, Transactionable};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    Random(B),
    Block(Info, Body),
    Tx(Tx),
    Num(N),
    Zstd(B),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Truncate(u16),
    Flip(u16, u8),
    Set(u16, u8),
    Insert(u16, B),
    Delete(u16, u8),
    /// sets the byte at one of the places where a length or tag is likely (offset from start or end)
    Edge(i16, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    muts: Vec<Mut>,
    prefixes: bool,
}

fn apply(v: &mut Vec<u8>, m: &Mut) {
    let n = v.len();
    match m {
        Mut::Truncate(k) => v.truncate(*k as usize * (n + 1) / 65536),
        Mut::Flip(p, x) if n > 0 => v[*p as usize * n / 65536] ^= (*x).max(1),
        Mut::Set(p, x) if n > 0 => v[*p as usize * n / 65536] = *x,
        Mut::Insert(p, b) => {
            let at = *p as usize * (n + 1) / 65536;
            v.splice(at..at, b.0.iter().copied());
        }
        Mut::Delete(p, k) if n > 0 => {
            let at = *p as usize * n / 65536;
            let end = (at + *k as usize + 1).min(n);
            v.drain(at..end);
        }
        Mut::Edge(o, x) if n > 0 => {
            let i = if *o >= 0 { *o as usize } else { n.saturating_sub((-*o) as usize) };
            if i < n {
                v[i] = *x;
            }
        }
        _ => {}
    }
}

fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        3 => any::<u16>().prop_map(Mut::Truncate),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Flip(a, b)),
        2 => (any::<u16>(), prop_oneof![any::<u8>(), 0u8..40, Just(0xff)]).prop_map(|(a, b)| Mut::Set(a, b)),
        2 => (any::<u16>(), bytes(80)).prop_map(|(a, b)| Mut::Insert(a, b)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Delete(a, b)),
        // likely places of number lengths: header height, with and without tag and root
        3 => (prop_oneof![Just(0i16), Just(137), Just(138), Just(169), Just(170), Just(171), Just(175), Just(139), Just(140), -70i16..-1], prop_oneof![0u8..40, any::<u8>()]).prop_map(|(a, b)| Mut::Edge(a, b)),
    ]
    .boxed()
}

/// Runs every decoder on the bytes; returns how many accepted.
fn decode_all(v: &[u8]) -> Result<u32, String> {
    let mut ok = 0;
    if let Ok(x) = op("BasicInfo::parse", || block::BasicInfo::parse(v))? {
        ok += 1;
        let mut d = vec![];
        must("dump", || x.dump(&mut d))?;
        let y = must("header: decoding the re-encoded value", || block::BasicInfo::parse(&d))?;
        same_info(&x, &y)?;
    }
    if let Ok(x) = op("TransactionBlock::parse", || block::TransactionBlock::parse(v))? {
        ok += 1;
        let d = must("dump", || x.dump())?;
        let y = must("transaction block: decoding the re-encoded value", || block::TransactionBlock::parse(&d[1..]))?;
        same_info(&x.default_info, &y.default_info)?;
        ensure!(x.fee == y.fee && x.merkle_tree_root == y.merkle_tree_root && x.transactions == y.transactions, "transaction block changed by encoding and decoding it again");
    }
    if let Ok(x) = op("DerivativeBlock::parse", || block::DerivativeBlock::parse(v))? {
        ok += 1;
        let d = must("dump", || x.dump())?;
        let y = must("derivative block: decoding the re-encoded value", || block::DerivativeBlock::parse(&d[1..]))?;
        same_info(&x.default_info, &y.default_info)?;
    }
    if let Ok(x) = op("SummarizeBlock::parse", || block::SummarizeBlock::parse(v))? {
        ok += 1;
        let d = must("dump", || x.dump())?;
        let y = must("summary block: decoding the re-encoded value", || block::SummarizeBlock::parse(&d[1..]))?;
        same_info(&x.default_info, &y.default_info)?;
        ensure!(x.merkle_tree_root == y.merkle_tree_root, "summary block changed by encoding and decoding it again");
    }
    if let Ok(x) = op("deserialize_main_chain_block", || block::deserialize_main_chain_block(v))? {
        ok += 1;
        let d = must("dump", || x.dump())?;
        let y = must("main-chain block: decoding the re-encoded value", || block::deserialize_main_chain_block(&d))?;
        same_info(x.get_info(), y.get_info())?;
        ensure!(x.get_fee() == y.get_fee() && x.get_merkle_root() == y.get_merkle_root() && x.transactions() == y.transactions() && x.get_type() as u8 == y.get_type() as u8, "main-chain block changed by encoding and decoding it again");
    }
    if let Ok(x) = op("Transaction::parse", || Transaction::parse(v))? {
        ok += 1;
        let d = must("dump", || x.dump())?;
        let y = must("transaction: decoding the re-encoded value", || Transaction::parse(&d[1..]))?;
        same_tx(&x, &y)?;
        let _ = guard(|| x.verify()).map_err(|p| format!("verify: {p}"))?;
    }
    if let Ok((x, n)) = op("load_u256", || tools::load_u256(v))? {
        ok += 1;
        ensure!(n < v.len(), "load_u256 reports {n} bytes used out of {}", v.len());
        let mut d = vec![];
        must("dump", || tools::dump_u256(&x, &mut d))?;
        let (y, _) = must("load_u256 of the re-encoded value", || tools::load_u256(&d))?;
        ensure!(x == y, "number {x} became {y}");
    }
    if let Ok((x, n)) = op("load_biguint", || tools::load_biguint(v))? {
        ok += 1;
        ensure!(n <= v.len(), "load_biguint reports {n} bytes used out of {}", v.len());
        let _: BigUint = x;
    }
    if let Some(b) = v.first() {
        let h = op("Headers::from_u8", || Headers::from_u8(*b))?;
        if let Ok(h) = h {
            ensure!(h as u8 == *b, "tag {b} decoded as another tag");
        }
    }
    Ok(ok)
}

impl Property for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    fn rule() -> &'static str {
        "random bytes, or a valid encoding (block, transaction, number, zstd stream) with 0-4 mutations (truncate, flip, set, insert, delete, set a length byte), optionally every prefix of it; every decoder is run on every byte string; non-trivial: derived from a valid encoding by at least one mutation or by taking all prefixes"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(180_000, 4_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let base = prop_oneof![
            2 => bytes(400).prop_map(Base::Random),
            5 => (info(), body(12)).prop_map(|(i, b)| Base::Block(i, b)),
            3 => tx(60).prop_map(Base::Tx),
            1 => num().prop_map(Base::Num),
            1 => bytes(600).prop_map(Base::Zstd),
        ];
        (base, proptest::collection::vec(mutation(), 0..4), proptest::bool::weighted(0.05)).prop_map(|(base, muts, prefixes)| Case { base, muts, prefixes }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut zst = false;
        let mut v = match &c.base {
            Base::Random(b) => b.0.clone(),
            Base::Block(i, b) => {
                let i = i.lib();
                match b {
                    Body::Header => {
                        let mut d = vec![];
                        must("dump", || i.dump(&mut d))?;
                        d
                    }
                    Body::Tx { root, fee, txs } => must("dump", || block::TransactionBlock::new(fee.0, i, root.a(), txs.list()).dump())?,
                    Body::Summary { root } => must("dump", || block::SummarizeBlock { default_info: i, merkle_tree_root: root.a() }.dump())?,
                    Body::Deriv => must("dump", || block::DerivativeBlock { default_info: i }.dump())?,
                }
            }
            Base::Tx(t) => must("dump", || t.lib().dump())?,
            Base::Num(n) => {
                let mut d = vec![];
                must("dump", || tools::dump_u256(&n.0, &mut d))?;
                d
            }
            Base::Zstd(b) => {
                zst = true;
                let f = cx.dir().join("z");
                must("compress", || tools::compress_to_file(f.to_str().unwrap().into(), &b.0))?;
                std::fs::read(&f).map_err(|e| format!("HARNESS {e}"))?
            }
        };
        for m in &c.muts {
            apply(&mut v, m);
        }
        if !matches!(c.base, Base::Random(_)) && (!c.muts.is_empty() || c.prefixes) {
            cx.nontrivial();
        }
        if zst || (matches!(c.base, Base::Random(_)) && v.len() % 16 == 3) {
            let f = cx.dir().join("z");
            std::fs::write(&f, &v).map_err(|e| format!("HARNESS {e}"))?;
            let r = op("decompress_from_file", || tools::decompress_from_file(f.to_str().unwrap().into()))?;
            cx.label(if r.is_ok() { "decompressor accepted" } else { "decompressor refused" });
        }
        let mut ok = decode_all(&v)?;
        cx.units += 1;
        if v.len() > 1 {
            // also without the tag, as the block decoders are called
            ok += decode_all(&v[1..])?;
            cx.units += 1;
        }
        cx.label(if ok > 4 { "accepted by several decoders" } else if ok > 0 { "accepted by some decoder" } else { "refused by all" });
        if c.prefixes {
            for k in 0..v.len().min(600) {
                decode_all(&v[..k])?;
                cx.units += 1;
                if k > 1 {
                    decode_all(&v[1..k])?;
                    cx.units += 1;
                }
            }
            cx.label("all prefixes");
        }
        Ok(())
    }
}
