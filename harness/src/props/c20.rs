use super::c05::{public, secret};
use super::c11::Plant;
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Arc;

pub struct C20;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Bad {
    No,
    /// signed by another key
    Key(u8),
    SigFlip(u8, u8),
    /// a field changed after signing: 0 receiver, 1 amount, 2 timestamp, 3 payload
    Field(u8),
    /// a sender that is not a public key
    NoKey(B),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Have {
    /// as they are
    Leave,
    /// exactly what is needed plus this
    Need(i8),
    Is(N),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Submit { from: u8, to: u8, amount: N, ts: u64, data: Option<B>, bad: Bad, coins: Have, gas: Have },
    /// submit an earlier one again
    Again(u16, Have, Have),
    Plant(Plant),
    Emit { gap: i64, seed: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

fn key(i: u8) -> secp256k1::SecretKey {
    if i % 5 == 0 {
        secret(&B(vec![1; 32])) // the root account
    } else {
        secret(&B(vec![i % 5 + 1; 32]))
    }
}
fn party(i: u8) -> Addr {
    if i < 5 {
        public(&key(i))
    } else {
        addr(i)
    }
}

fn have() -> BoxedStrategy<Have> {
    prop_oneof![5 => Just(Have::Need(0)), 3 => Just(Have::Need(1)), 1 => Just(Have::Need(-1)), 1 => Just(Have::Leave), 3 => amount().prop_map(Have::Is), 3 => Just(Have::Is(N(U256::one() << 200))), 1 => num().prop_map(Have::Is)].boxed()
}

struct St {
    t: blockchaintree::blockchaintree::BlockChainTree,
    f: Funds,
    acc: Vec<Addr>,
    zeros: u32,
    height: u64,
    sent: Vec<Transaction>,
    done: BTreeSet<r::H>,
    all: BTreeSet<r::H>,
}

fn set_funds(st: &mut St, who: &Addr, want_c: Option<U256>, want_g: Option<U256>) -> Result<(), String> {
    if let Some(c) = want_c {
        must("set_amount", || st.t.set_amount(who, c))?;
    }
    if let Some(g) = want_g {
        let have = must("get_gas", || st.t.get_gas(who))?;
        if g > have {
            must("add_gas", || st.t.add_gas(who, g - have))?;
        } else if g < have {
            must("sub_gas", || st.t.sub_gas(who, have - g))?;
        }
    }
    st.f = funds(&st.t, &st.acc)?; // C18 judges these
    Ok(())
}

fn submit(st: &mut St, x: &Transaction, sig_ok: bool, coins: &Have, gas: &Have, cx: &mut Cx) -> Result<(), String> {
    let from = *x.get_sender();
    let to = *x.get_receiver();
    let v = *x.get_amount();
    let fee = U256::from(62500u64) * st.zeros;
    let size = must("dump", || x.dump())?.len();
    let price = U256::from(625_000_000_000u64) * U256::from(size);
    let need = fee.checked_add(v);
    let pick = |h: &Have, need: U256| match h {
        Have::Leave => None,
        Have::Need(d) => Some(if *d >= 0 { need.saturating_add((*d as u64).into()) } else { need.saturating_sub((d.unsigned_abs() as u64).into()) }),
        Have::Is(n) => Some(n.0),
    };
    let c = pick(coins, need.unwrap_or(U256::MAX));
    let g = pick(gas, price);
    set_funds(st, &from, c, g)?;
    let before = st.f.clone();
    let (bc, bg) = (before.coins[&from], before.gas[&from]);
    let paid = bg >= price && need.is_some_and(|n| bc >= n);
    let overflow = from != to && before.coins[&to].checked_add(v).is_none();
    let first = !st.done.contains(&x.hash());
    let expect = sig_ok && paid;
    let was = must("transaction_exists", || st.t.get_main_chain().transaction_exists(&x.hash()))?;
    let res = op("send_transaction", || st.t.send_transaction(x))?;
    let after = funds(&st.t, &st.acc)?;
    let mut moved = before.clone();
    if from != to && expect && !overflow {
        *moved.coins.get_mut(&from).unwrap() -= v;
        *moved.coins.get_mut(&to).unwrap() += v;
    }
    if expect {
        *moved.gas.get_mut(&from).unwrap() -= price;
    }
    let here = must("transaction_exists", || st.t.get_main_chain().transaction_exists(&x.hash()))?;
    let why = format!("signature {sig_ok}, {bg} gas for {price}, {bc} coins for {v} plus fee {fee}");
    match res {
        Err(e) => {
            ensure!(!expect || overflow || !first, "a submission was refused ({why}): {}", e.lines().next().unwrap_or(""));
            ensure!(after == before, "a refused submission changed balances ({why})");
            ensure!(here == was, "a refused submission stored the transaction ({why})");
            cx.label(if !first { "second submission refused" } else if !sig_ok { "refused: signature" } else if overflow && paid { "refused: receiver overflow" } else { "refused: funds" });
        }
        Ok(()) => {
            ensure!(expect && !overflow, "a submission was accepted ({why})");
            ensure!(here, "an accepted transaction is not found under its hash");
            let got = must("get_transaction_raw", || st.t.get_main_chain().get_transaction_raw(&x.hash()))?;
            ensure!(got == Some(must("dump", || x.dump())?), "an accepted transaction is stored with other bytes");
            if first {
                ensure!(after == moved, "an accepted submission did not move exactly the amount and the gas ({why}; sender {} -> {}, receiver {} -> {}, gas {} -> {})", bc, after.coins[&from], before.coins[&to], after.coins[&to], bg, after.gas[&from]);
                cx.label(if from == to { "accepted, to oneself" } else { "accepted" });
                st.done.insert(x.hash());
                cx.units += 1;
            } else if after != before {
                ensure!(after == moved, "a second submission changed balances in another way than moving the amount again ({why})");
                cx.label("second submission moved funds");
                cx.known("K2", "submitting the same transaction a second time moved the funds a second time")?;
            }
        }
    }
    st.all.insert(x.hash());
    st.f = after;
    Ok(())
}

impl Property for C20 {
    type Case = Case;
    const ID: &'static str = "C20";
    fn rule() -> &'static str {
        "histories of 1..20 submissions on a real tree from 5 keys (one the root account) to keys and other addresses, oneself included, payload up to 2 KB (rarely 140 KB); signatures right, by another key, bit-flipped, over changed fields, or from a sender that is no key; coins and gas exactly sufficient, one short, one more or unrelated; amounts over 256 bits; resubmissions; difficulty (thus fee) changed in between by planted and emitted blocks; non-trivial: at least one accepted and one refused submission"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(6_000, 150_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["the sender's coins must cover amount plus fee; the fee itself is not deducted (as in the code, where the deduction is commented out)", "submissions are made one at a time here; C29 makes them from several threads"]
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let bad = prop_oneof![
            10 => Just(Bad::No),
            1 => (0u8..5).prop_map(Bad::Key),
            1 => (0u8..64, any::<u8>()).prop_map(|(a, b)| Bad::SigFlip(a, b)),
            2 => (0u8..4).prop_map(Bad::Field),
            1 => arr(33).prop_map(Bad::NoKey),
        ];
        let long = (60_000usize..140_000, any::<u64>()).prop_map(|(n, s)| Some(B(expand(s, n, 0))));
        let data = prop_oneof![40 => Just(None), 40 => bytes(40).prop_map(Some), 20 => bytes(2000).prop_map(Some), 1 => long];
        let am = prop_oneof![3 => amount(), 1 => num()];
        let o = prop_oneof![
            12 => ((0u8..5, 0u8..8, am, u64v(), data), (bad, have(), have())).prop_map(|((from, to, amount, ts, data), (bad, coins, gas))| Op::Submit { from, to, amount, ts, data, bad, coins, gas }),
            2 => (any::<u16>(), have(), have()).prop_map(|(k, a, b)| Op::Again(k, a, b)),
            2 => (prop_oneof![3 => 1u16..=12, 1 => 1u16..=256], u64v()).prop_map(|(zeros, ts)| Op::Plant(Plant { zeros, ts })),
            1 => (gap(), any::<u32>()).prop_map(|(gap, seed)| Op::Emit { gap, seed }),
        ];
        proptest::collection::vec(o, 1..20).prop_map(|ops| Case { ops }).boxed()
    }
    fn witnesses() -> Vec<(&'static str, Case)> {
        let s = Op::Submit { from: 1, to: 2, amount: N(5.into()), ts: 1, data: None, bad: Bad::No, coins: Have::Is(N(1_000_000_000u64.into())), gas: Have::Is(N(U256::one() << 100)) };
        vec![("K2", Case { ops: vec![s, Op::Again(0, Have::Leave, Have::Leave)] })]
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let t = open_tree(&dir)?;
        let acc: Vec<Addr> = (0..8).map(party).collect();
        let f = funds(&t, &acc)?;
        let mut st = St { t, f, acc, zeros: 1, height: 1, sent: vec![], done: BTreeSet::new(), all: BTreeSet::new() };
        for o in &c.ops {
            match o {
                Op::Submit { from, to, amount, ts, data, bad, coins, gas } => {
                    let k = key(*from);
                    let mut sender = public(&k);
                    let mut to = party(*to);
                    let mut v = amount.0;
                    let mut ts = *ts;
                    let mut d = data.as_ref().map(|d| d.0.clone());
                    let signer = match bad {
                        Bad::Key(i) => key(*i),
                        _ => k,
                    };
                    let mut sig_ok = public(&signer) == sender;
                    if let Bad::NoKey(b) = bad {
                        sender = b.a();
                        sig_ok = false;
                        if secp256k1::PublicKey::from_slice(&sender).is_ok() || !st.acc.contains(&sender) {
                            st.acc.push(sender);
                            st.f = funds(&st.t, &st.acc)?;
                        }
                    }
                    let mut sig = must("generate_signature", || Transaction::generate_signature(&sender, &to, ts, &v, d.as_deref(), &signer.secret_bytes()))?;
                    match bad {
                        Bad::SigFlip(i, x) if *x != 0 => {
                            sig[*i as usize] ^= x;
                            sig_ok = false;
                        }
                        Bad::Field(0) => {
                            to = party(7 - (st.acc.iter().position(|a| *a == to).unwrap_or(0) as u8).min(7));
                            sig_ok = false;
                        }
                        Bad::Field(1) => {
                            v = v ^ U256::one();
                            sig_ok = false;
                        }
                        Bad::Field(2) => {
                            ts ^= 1;
                            sig_ok = false;
                        }
                        Bad::Field(3) => {
                            d.get_or_insert(vec![]).push(1);
                            sig_ok = false;
                        }
                        _ => {}
                    }
                    let x = Transaction::new_signed(sender, to, ts, v, d, sig);
                    st.sent.push(x.clone());
                    submit(&mut st, &x, sig_ok, coins, gas, cx)?;
                }
                Op::Again(k, coins, gas) => {
                    if !st.sent.is_empty() {
                        let x = st.sent[*k as usize % st.sent.len()].clone();
                        // C05 judges verification itself
                        let sig_ok = matches!(guard(|| x.verify())?, Ok(true));
                        submit(&mut st, &x, sig_ok, coins, gas, cx)?;
                    }
                }
                Op::Plant(p) => {
                    let i = block::BasicInfo::new(p.ts, [3; 32], [1; 32], U256::from(st.height), r::difficulty_of(p.zeros as u32), addr(4));
                    must("add_block", || st.t.get_main_chain().add_block(Arc::new(block::TransactionBlock::new(1.into(), i, [1; 32], vec![[2; 32]]))))?;
                    st.height += 1;
                    st.zeros = p.zeros as u32;
                }
                Op::Emit { gap, seed } => {
                    let last = must("last block", || st.t.get_main_chain().get_last_block())?.ok_or("no last block")?;
                    let d = last.get_info().difficulty;
                    if st.zeros <= MINE_MAX {
                        let ts = add_gap(last.get_info().timestamp, eased(*gap, st.zeros));
                        let n = r::mine(&must("hash", || last.hash())?, &d, &[[5; 32]], *seed as u64, true);
                        if emit_main(&mut st.t, &n, &addr(1), &[[5; 32]], ts)?.is_ok() {
                            st.height += 1;
                            let l = must("last block", || st.t.get_main_chain().get_last_block())?.ok_or("no last block")?;
                            st.zeros = r::leading_zero_bits(&l.get_info().difficulty);
                        }
                    }
                }
            }
        }
        if !st.done.is_empty() && st.all.len() > st.done.len() {
            cx.nontrivial();
        }
        Ok(())
    }
}
