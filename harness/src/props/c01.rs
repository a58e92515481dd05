use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use blockchaintree::block::{self, Block};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C01;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Info {
    pub ts: u64,
    pub pow: B,
    pub prev: B,
    pub height: N,
    pub diff: B,
    pub founder: B,
}
impl Info {
    pub fn lib(&self) -> block::BasicInfo {
        block::BasicInfo::new(self.ts, self.pow.a(), self.prev.a(), self.height.0, self.diff.a(), self.founder.a())
    }
}
pub fn info() -> BoxedStrategy<Info> {
    (u64v(), arr(32), arr(32), num(), arr(32), arr(33))
        .prop_map(|(ts, pow, prev, height, diff, founder)| Info { ts, pow, prev, height, diff, founder })
        .boxed()
}

pub fn same_info(a: &block::BasicInfo, b: &block::BasicInfo) -> Result<(), String> {
    ensure!(a.timestamp == b.timestamp, "timestamp {} became {}", a.timestamp, b.timestamp);
    ensure!(a.pow == b.pow, "nonce changed: {:?} became {:?}", a.pow, b.pow);
    ensure!(a.previous_hash == b.previous_hash, "previous hash changed");
    ensure!(a.height == b.height, "height {} became {}", a.height, b.height);
    ensure!(a.difficulty == b.difficulty, "difficulty changed: {:?} became {:?}", a.difficulty, b.difficulty);
    ensure!(a.founder == b.founder, "founder changed");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Header,
    Tx { root: B, fee: N, txs: Hashes },
    Summary { root: B },
    Deriv,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    info: Info,
    body: Body,
    prefix: B,
    tag: u8,
}

pub fn body(max_txs: usize) -> BoxedStrategy<Body> {
    prop_oneof![
        2 => Just(Body::Header),
        6 => (arr(32), num(), hashes_rare(max_txs, 6 * max_txs + 10, 2000, if max_txs > 1000 { 40_000 } else { 400_000_000 })).prop_map(|(root, fee, txs)| Body::Tx { root, fee, txs }),
        2 => arr(32).prop_map(|root| Body::Summary { root }),
        2 => Just(Body::Deriv),
    ]
    .boxed()
}

fn size_matches(what: &str, declared: usize, dump: &[u8]) -> Result<(), String> {
    ensure!(declared == dump.len(), "{what}: declared size {declared}, encoding has {} bytes", dump.len());
    Ok(())
}

impl Property for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    fn rule() -> &'static str {
        "random header fields (boundary-biased 256-bit height and fee), one of header / transaction block with 0..~1500 hashes (rarely 9000 or 45,000) / summary / derivative, encoded and decoded directly and through the kind dispatch; non-trivial: a number at a byte-length boundary (zero, a power of 256 or its predecessor, or 32 bytes long) or at least 4 transaction hashes"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(600_000, 12_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (info(), body(1500), bytes(40), any::<u8>()).prop_map(|(info, body, prefix, tag)| Case { info, body, prefix, tag }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let i = c.info.lib();
        let edge = |n: &N| {
            let b = n.0.bits();
            n.0.is_zero() || b > 248 || (b % 8 == 1 && n.0.trailing_zeros() as usize == b - 1) || (b % 8 == 0 && (n.0 + 1).bits() == b + 1)
        };
        if edge(&c.info.height) {
            cx.nontrivial();
            cx.label("boundary height");
        }
        if c.info.height.0.is_zero() {
            cx.label("zero height");
        }
        // header alone, appended to existing bytes
        let mut buf = c.prefix.0.clone();
        must("header dump", || i.dump(&mut buf))?;
        ensure!(buf.starts_with(&c.prefix.0), "encoding a header changed the bytes before it");
        let enc = &buf[c.prefix.0.len()..];
        size_matches("header", i.get_dump_size(), enc)?;
        same_info(&i, &must("header parse", || block::BasicInfo::parse(enc))?)?;

        let generic = |b: &dyn Block, kind: u8, dump: &[u8]| -> Result<(), String> {
            size_matches("block", b.get_dump_size(), dump)?;
            ensure!(dump.first() == Some(&kind), "encoding starts with tag {:?}, expected {kind}", dump.first());
            ensure!(b.get_type() as u8 == kind, "block reports kind {}", b.get_type() as u8);
            let h = must("hash", || b.hash())?;
            ensure!(h == r::sha(dump), "hash is not the SHA-256 of the encoding");
            ensure!(b.get_founder() == &i.founder, "founder accessor differs");
            same_info(&i, b.get_info())
        };
        match &c.body {
            Body::Header => cx.label("header"),
            Body::Tx { root, fee, txs } => {
                let list = txs.list();
                cx.label(match list.len() {
                    0 => "tx block, no hashes",
                    1..=3 => "tx block, 1-3 hashes",
                    4..=100 => "tx block, 4-100 hashes",
                    _ => "tx block, >100 hashes",
                });
                if list.len() > 3 || edge(fee) {
                    cx.nontrivial();
                }
                let b = block::TransactionBlock::new(fee.0, i.clone(), root.a(), list.clone());
                let dump = must("dump", || b.dump())?;
                generic(&b, 2, &dump)?;
                ensure!(b.get_dump_size() == dump.len(), "declared size");
                let p = must("parse", || block::TransactionBlock::parse(&dump[1..]))?;
                same_info(&i, &p.default_info)?;
                ensure!(p.fee == fee.0, "fee {} became {}", fee.0, p.fee);
                ensure!(p.merkle_tree_root == b.merkle_tree_root, "Merkle root changed");
                ensure!(p.transactions == list, "transaction list changed: {} hashes became {}", list.len(), p.transactions.len());
                let a = must("dispatch", || block::deserialize_main_chain_block(&dump))?;
                generic(&*a, 2, &dump)?;
                ensure!(a.get_fee() == fee.0, "dispatch: fee changed");
                ensure!(a.get_merkle_root() == root.a::<32>(), "dispatch: Merkle root changed");
                ensure!(a.transactions() == Some(&list[..]), "dispatch: transaction list changed");
                let again = must("dump", || a.dump())?;
                ensure!(again == dump, "encoding the decoded block gives other bytes");
                wrong_tags(&dump, 2, c.tag)?;
            }
            Body::Summary { root } => {
                cx.label("summary");
                let b = block::SummarizeBlock { default_info: i.clone(), merkle_tree_root: root.a() };
                let dump = must("dump", || b.dump())?;
                generic(&b, 4, &dump)?;
                let p = must("parse", || block::SummarizeBlock::parse(&dump[1..]))?;
                same_info(&i, &p.default_info)?;
                ensure!(p.merkle_tree_root == root.a::<32>(), "Merkle root changed");
                let a = must("dispatch", || block::deserialize_main_chain_block(&dump))?;
                generic(&*a, 4, &dump)?;
                ensure!(a.get_merkle_root() == root.a::<32>(), "dispatch: Merkle root changed");
                ensure!(a.transactions().is_none(), "dispatch: a summary block lists transactions");
                let again = must("dump", || a.dump())?;
                ensure!(again == dump, "encoding the decoded block gives other bytes");
                wrong_tags(&dump, 4, c.tag)?;
            }
            Body::Deriv => {
                cx.label("derivative");
                let b = block::DerivativeBlock { default_info: i.clone() };
                let dump = must("dump", || b.dump())?;
                generic(&b, 3, &dump)?;
                let p = must("parse", || block::DerivativeBlock::parse(&dump[1..]))?;
                same_info(&i, &p.default_info)?;
                let again = must("dump", || p.dump())?;
                ensure!(again == dump, "encoding the decoded block gives other bytes");
                wrong_tags(&dump, 3, c.tag)?;
            }
        }
        Ok(())
    }
}

/// Only tags 2 and 4 belong to main-chain blocks.
fn wrong_tags(dump: &[u8], own: u8, tag: u8) -> Result<(), String> {
    for t in [0, 1, 3, 5, 255, tag] {
        if t == 2 || t == 4 {
            continue;
        }
        let mut d = dump.to_vec();
        d[0] = t;
        if let Ok(b) = op("dispatch", || block::deserialize_main_chain_block(&d))? {
            return Err(format!("an encoding with kind tag {t} (made from kind {own}) was decoded as a main-chain block of kind {}", b.get_type() as u8));
        }
    }
    ensure!(op("dispatch", || block::deserialize_main_chain_block(&[]))?.is_err(), "empty input decoded to a block");
    Ok(())
}
