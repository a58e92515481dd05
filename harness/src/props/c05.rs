use super::c02::{tx, tx_rare, Tx};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use proptest::prelude::*;
use secp256k1::{PublicKey, Secp256k1, SecretKey};
use serde::{Deserialize, Serialize};

pub struct C05;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Nothing,
    Sender(B),
    SenderKey(B),
    /// the mirrored key, or another prefix
    SenderSign(u8),
    Receiver(u8, u8),
    Time(u64),
    Amount(N),
    DataFlip(u16, u8),
    DataCut(u16),
    DataAdd(B),
    SigFlip(u8, u8),
    SigRandom(B),
    OtherKey(B),
    Malleate,
    /// moves the first payload byte into the amount or the last amount byte into the payload
    Shift(bool),
    SwapParties,
    Wire(u16, u8),
    Two(Box<Tamper>, Box<Tamper>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    key: B,
    tx: Tx,
    tamper: Tamper,
}

fn single() -> BoxedStrategy<Tamper> {
    prop_oneof![
        arr(33).prop_map(Tamper::Sender),
        arr(32).prop_map(Tamper::SenderKey),
        prop_oneof![3 => Just(1u8), 1 => any::<u8>()].prop_map(Tamper::SenderSign),
        (0u8..33, any::<u8>()).prop_map(|(a, b)| Tamper::Receiver(a, b)),
        u64v().prop_map(Tamper::Time),
        num().prop_map(Tamper::Amount),
        (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Tamper::DataFlip(a, b)),
        any::<u16>().prop_map(Tamper::DataCut),
        bytes(40).prop_map(Tamper::DataAdd),
        (0u8..64, any::<u8>()).prop_map(|(a, b)| Tamper::SigFlip(a, b)),
        arr(64).prop_map(Tamper::SigRandom),
        arr(32).prop_map(Tamper::OtherKey),
        Just(Tamper::Malleate),
        any::<bool>().prop_map(Tamper::Shift),
        Just(Tamper::SwapParties),
        (any::<u16>(), 1u8..=255).prop_map(|(a, b)| Tamper::Wire(a, b)),
    ]
    .boxed()
}

pub fn secret(b: &B) -> SecretKey {
    let mut k: [u8; 32] = b.a();
    loop {
        match SecretKey::from_slice(&k) {
            Ok(s) => return s,
            Err(_) => {
                k[0] = k[0].wrapping_sub(1);
                k[31] |= 1;
            }
        }
    }
}
pub fn public(s: &SecretKey) -> [u8; 33] {
    thread_local! { static S: Secp256k1<secp256k1::All> = Secp256k1::new(); }
    S.with(|c| PublicKey::from_secret_key(c, s).serialize())
}

// order of the curve
fn order() -> U256 {
    U256::from_str_radix("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap()
}

#[derive(Clone, PartialEq)]
struct F {
    from: [u8; 33],
    to: [u8; 33],
    ts: u64,
    amount: U256,
    data: Vec<u8>,
    sig: [u8; 64],
}

fn tamper(f: &mut F, t: &Tamper) {
    match t {
        Tamper::Nothing | Tamper::Wire(..) => {}
        Tamper::Sender(b) => f.from = b.a(),
        Tamper::SenderKey(b) => f.from = public(&secret(b)),
        Tamper::SenderSign(x) => f.from[0] ^= x,
        Tamper::Receiver(i, x) => f.to[*i as usize] ^= x,
        Tamper::Time(t) => f.ts = *t,
        Tamper::Amount(n) => f.amount = n.0,
        Tamper::DataFlip(i, x) => {
            if !f.data.is_empty() {
                let n = f.data.len();
                f.data[*i as usize % n] ^= x;
            }
        }
        Tamper::DataCut(k) => {
            let n = f.data.len();
            f.data.truncate(*k as usize % (n + 1));
        }
        Tamper::DataAdd(b) => f.data.extend_from_slice(&b.0),
        Tamper::SigFlip(i, x) => f.sig[*i as usize] ^= x,
        Tamper::SigRandom(b) => f.sig = b.a(),
        Tamper::OtherKey(k) => {
            if let Ok(s) = Transaction::generate_signature(&f.from, &f.to, f.ts, &f.amount, Some(&f.data), &secret(k).secret_bytes()) {
                f.sig = s;
            }
        }
        Tamper::Malleate => {
            let s = U256::from_big_endian(&f.sig[32..]);
            if s < order() {
                let t = order() - s;
                let mut b = [0u8; 32];
                t.to_big_endian(&mut b);
                f.sig[32..].copy_from_slice(&b);
            }
        }
        Tamper::Shift(into) => {
            if *into {
                if !f.data.is_empty() && f.amount.bits() <= 248 {
                    let b = f.data.remove(0);
                    f.amount = (f.amount << 8) + U256::from(b);
                }
            } else if !f.amount.is_zero() {
                let b = f.amount.low_u32() as u8;
                f.amount >>= 8;
                f.data.insert(0, b);
            }
        }
        Tamper::SwapParties => std::mem::swap(&mut f.from, &mut f.to),
        Tamper::Two(a, b) => {
            tamper(f, a);
            tamper(f, b);
        }
    }
}

impl Property for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    fn rule() -> &'static str {
        "random key, transaction signed with it (payload up to 60 KB, one in 300 larger), then no change, one or two changes of fields or signature, another key, the high-s twin, or a changed byte of the encoding; non-trivial: the transaction really differs from the signed one, or is unchanged with a payload"
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["ECDSA over secp256k1 and SHA-256 are unforgeable for the generated inputs (a chance forgery has negligible probability)"]
    }
    fn cases(t: Tier) -> u32 {
        t.pick(90_000, 1_800_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let t = prop_oneof![2 => Just(Tamper::Nothing), 7 => single(), 1 => (single(), single()).prop_map(|(a, b)| Tamper::Two(Box::new(a), Box::new(b)))];
        (arr(32), prop_oneof![60 => tx(300), 3 => tx(9_000), 1 => tx(60_000), 1 => tx_rare(60_000, 5)], t).prop_map(|(key, tx, tamper)| Case { key, tx, tamper }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let sk = secret(&c.key);
        let pk = public(&sk);
        let data = c.tx.data.as_ref().map(|d| d.0.clone());
        let t = must("signing", || Transaction::new(pk, c.tx.to.a(), c.tx.ts, c.tx.amount.0, sk.secret_bytes(), data.clone()))?;
        ensure!(must("verify", || t.verify())?, "a freshly signed transaction does not verify");
        let d = must("dump", || t.dump())?;
        let p = must("parse", || Transaction::parse(&d[1..]))?;
        ensure!(must("verify", || p.verify())?, "a signed transaction does not verify after encoding and decoding");
        let sig = must("generate_signature", || Transaction::generate_signature(&pk, &c.tx.to.a(), c.tx.ts, &c.tx.amount.0, data.as_deref(), &sk.secret_bytes()))?;
        let q = Transaction::new_signed(pk, c.tx.to.a(), c.tx.ts, c.tx.amount.0, data.clone(), sig);
        ensure!(must("verify", || q.verify())?, "a separately generated signature does not verify");

        let orig = F { from: pk, to: c.tx.to.a(), ts: c.tx.ts, amount: c.tx.amount.0, data: data.clone().unwrap_or_default(), sig: *t.get_signature() };
        if let Tamper::Wire(i, x) = &c.tamper {
            let mut w = d.clone();
            let i = 1 + *i as usize % (w.len() - 1);
            w[i] ^= x;
            cx.label("wire byte changed");
            cx.nontrivial();
            if let Ok(m) = op("parse", || Transaction::parse(&w[1..]))? {
                let same = m.dump().map(|b| b == d).unwrap_or(false);
                let v = op("verify", || m.verify())?;
                ensure!(same || v != Ok(true), "a transaction whose encoding was changed at byte {i} still verifies");
            }
            return Ok(());
        }
        let mut f = orig.clone();
        tamper(&mut f, &c.tamper);
        let name = format!("{:?}", c.tamper);
        cx.label(name.split(['(', ' ']).next().unwrap_or("").to_string());
        if f == orig {
            if !f.data.is_empty() {
                cx.nontrivial();
            }
            return Ok(());
        }
        cx.nontrivial();
        let m = Transaction::new_signed(f.from, f.to, f.ts, f.amount, if f.data.is_empty() && data.is_none() { None } else { Some(f.data.clone()) }, f.sig);
        // an own signature by another key is fine if that key is the sender's
        let legit = match &c.tamper {
            Tamper::OtherKey(k) => public(&secret(k)) == f.from,
            Tamper::Two(a, b) => [a, b].iter().any(|t| matches!(&***t, Tamper::OtherKey(k) if public(&secret(k)) == f.from)),
            _ => false,
        };
        let v = op("verify", || m.verify())?;
        if legit {
            return Ok(());
        }
        ensure!(v != Ok(true), "a transaction changed by {} still verifies", sanitize(&name));
        Ok(())
    }
}
