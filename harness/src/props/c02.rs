use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use blockchaintree::transaction::{Transaction, Transactionable};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C02;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tx {
    pub from: B,
    pub to: B,
    pub ts: u64,
    pub amount: N,
    pub data: Option<B>,
    pub sig: B,
}
impl Tx {
    pub fn lib(&self) -> Transaction {
        Transaction::new_signed(self.from.a(), self.to.a(), self.ts, self.amount.0, self.data.as_ref().map(|d| d.0.clone()), self.sig.a())
    }
}
/// Mostly up to `max` bytes of payload, one in `every` times 60,000 to 300,000 or (rarely) up to 1.5 million.
pub fn tx_rare(max: usize, every: u32) -> BoxedStrategy<Tx> {
    let n = prop_oneof![2 => 65_000usize..66_500, 6 => 60_000usize..300_000, 1 => 300_000usize..1_500_000];
    let long = (tx(0), n, any::<u64>(), 0u8..4).prop_map(|(mut t, n, s, k)| {
        t.data = Some(B(expand(s, n, k)));
        t
    });
    prop_oneof![every - 1 => tx(max), 1 => long].boxed()
}
pub fn tx(max: usize) -> BoxedStrategy<Tx> {
    (arr(33), arr(33), u64v(), num(), prop_oneof![1 => Just(None).boxed(), 4 => bytes(max).prop_map(Some).boxed()], arr(64))
        .prop_map(|(from, to, ts, amount, data, sig)| Tx { from, to, ts, amount, data, sig })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tx: Tx,
    key: Option<B>,
}

pub fn same_tx(a: &Transaction, b: &Transaction) -> Result<(), String> {
    ensure!(a.get_sender() == b.get_sender(), "sender changed");
    ensure!(a.get_receiver() == b.get_receiver(), "receiver changed");
    ensure!(a.get_timestamp() == b.get_timestamp(), "timestamp {} became {}", a.get_timestamp(), b.get_timestamp());
    ensure!(a.get_signature() == b.get_signature(), "signature changed");
    ensure!(a.get_amount() == b.get_amount(), "amount {} became {}", a.get_amount(), b.get_amount());
    ensure!(
        Transactionable::get_amount(a) == Transactionable::get_amount(b) && Transactionable::get_amount(b) == Some(*b.get_amount()),
        "amount accessor differs"
    );
    ensure!(
        a.get_data().unwrap_or(&[]) == b.get_data().unwrap_or(&[]),
        "payload changed: {} bytes became {}",
        a.get_data().map_or(0, |d| d.len()),
        b.get_data().map_or(0, |d| d.len())
    );
    ensure!(a.hash() == b.hash(), "hash changed");
    Ok(())
}

impl Property for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    fn rule() -> &'static str {
        "random transactions (boundary-biased 256-bit amounts, payload absent, empty, or up to 6000 bytes, one in 4000 up to 1.5 million), built from a given signature or signed, encoded, decoded, re-encoded; non-trivial: non-empty payload and an amount of 0 or at least 2 bytes"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_200_000, 24_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (tx_rare(6000, 4000), proptest::option::weighted(0.05, arr(32))).prop_map(|(tx, key)| Case { tx, key }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let t = match &c.key {
            None => c.tx.lib(),
            Some(k) => {
                let key: [u8; 32] = k.a();
                match op("new", || Transaction::new(c.tx.from.a(), c.tx.to.a(), c.tx.ts, c.tx.amount.0, key, c.tx.data.as_ref().map(|d| d.0.clone())))? {
                    Ok(t) => {
                        cx.label("signed here");
                        t
                    }
                    Err(_) => {
                        ensure!(secp256k1::SecretKey::from_slice(&key).is_err(), "signing with a valid key failed");
                        cx.label("invalid key refused");
                        return Ok(());
                    }
                }
            }
        };
        let n = c.tx.data.as_ref().map_or(0, |d| d.0.len());
        cx.label(match (&c.tx.data, n) {
            (None, _) => "no payload",
            (_, 0) => "empty payload",
            (_, 1..=64) => "payload 1-64",
            (_, 65..=1000) => "payload 65-1000",
            _ => "payload >1000",
        });
        if n > 0 && (c.tx.amount.0.is_zero() || c.tx.amount.0.bits() > 8) {
            cx.nontrivial();
        }
        ensure!(t.get_sender() == &c.tx.from.a::<33>() && t.get_receiver() == &c.tx.to.a::<33>(), "addresses differ from those given");
        ensure!(t.get_timestamp() == c.tx.ts && *t.get_amount() == c.tx.amount.0, "timestamp or amount differs from those given");
        ensure!(t.get_data().unwrap_or(&[]) == c.tx.data.as_ref().map_or(&[][..], |d| &d.0[..]), "payload differs from the one given");
        if c.key.is_none() {
            ensure!(t.get_signature() == &c.tx.sig.a::<64>(), "signature differs from the one given");
        }
        let dump = must("dump", || t.dump())?;
        ensure!(dump.first() == Some(&0), "encoding starts with tag {:?}", dump.first());
        ensure!(t.get_dump_size() == dump.len(), "declared size {}, encoding has {} bytes", t.get_dump_size(), dump.len());
        ensure!(t.hash() == r::sha(&dump), "hash is not the SHA-256 of the encoding");
        let p = must("parse", || Transaction::parse(&dump[1..]))?;
        same_tx(&t, &p)?;
        ensure!(p.get_dump_size() == dump.len(), "declared size of the decoded transaction is {}, encoding has {} bytes", p.get_dump_size(), dump.len());
        let again = must("dump", || p.dump())?;
        ensure!(again == dump, "encoding the decoded transaction gives other bytes");
        ensure!(p.hash_without_signature() == t.hash_without_signature(), "signed digest changed");
        Ok(())
    }
}
