use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use blockchaintree::blockchaintree::BlockChainTree;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub struct C18;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amt {
    Is(N),
    /// the account's balance plus this
    Bal(i8),
    /// what would still fit into the (receiving) account plus this
    Room(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(u8, Amt),
    Set(u8, Amt),
    Sub(u8, Amt),
    Send(u8, u8, Amt),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    extra: Vec<B>,
    /// (operation, on gas)
    ops: Vec<(Op, bool)>,
    reopen_at: Option<u8>,
}

fn amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => num().prop_map(Amt::Is),
        4 => amount().prop_map(Amt::Is),
        3 => (-2i8..=2).prop_map(Amt::Bal),
        1 => (-2i8..=2).prop_map(Amt::Room),
    ]
    .boxed()
}
fn shift(n: U256, d: i8) -> U256 {
    let k = U256::from(d.unsigned_abs());
    if d >= 0 {
        n.saturating_add(k)
    } else {
        n.saturating_sub(k)
    }
}

type Book = BTreeMap<Addr, U256>;

/// Expected effect: Ok(new balances) or Err for a refusal; the second value says the outcome is left open.
fn expect(b: &Book, o: &Op, acc: &[Addr]) -> (Option<Book>, U256, bool) {
    let bal = |a: &Addr| b.get(a).copied().unwrap_or_default();
    let a_of = |i: &u8| acc[*i as usize % acc.len()];
    let mut n = b.clone();
    match o {
        Op::Add(a, x) => {
            let a = a_of(a);
            let v = match x {
                Amt::Is(n) => n.0,
                Amt::Bal(d) => shift(bal(&a), *d),
                Amt::Room(d) => shift(U256::MAX - bal(&a), *d),
            };
            match bal(&a).checked_add(v) {
                Some(s) => {
                    n.insert(a, s);
                    (Some(n), v, false)
                }
                None => (None, v, false),
            }
        }
        Op::Set(a, x) => {
            let a = a_of(a);
            let v = match x {
                Amt::Is(n) => n.0,
                Amt::Bal(d) => shift(bal(&a), *d),
                Amt::Room(d) => shift(U256::MAX, *d),
            };
            n.insert(a, v);
            (Some(n), v, false)
        }
        Op::Sub(a, x) => {
            let a = a_of(a);
            let v = match x {
                Amt::Is(n) => n.0,
                Amt::Bal(d) | Amt::Room(d) => shift(bal(&a), *d),
            };
            match bal(&a).checked_sub(v) {
                Some(s) => {
                    n.insert(a, s);
                    (Some(n), v, false)
                }
                None => (None, v, false),
            }
        }
        Op::Send(f, t, x) => {
            let (f, t) = (a_of(f), a_of(t));
            let v = match x {
                Amt::Is(n) => n.0,
                Amt::Bal(d) => shift(bal(&f), *d),
                Amt::Room(d) => shift(U256::MAX - bal(&t), *d),
            };
            if f == t {
                // nothing may change; a transfer of more than the balance to oneself may be refused or not
                return (Some(n), v, bal(&f) < v);
            }
            match (bal(&f).checked_sub(v), bal(&t).checked_add(v)) {
                (Some(x), Some(y)) => {
                    n.insert(f, x);
                    n.insert(t, y);
                    (Some(n), v, false)
                }
                _ => (None, v, false),
            }
        }
    }
}

fn apply(t: &BlockChainTree, o: &Op, gas: bool, v: U256, acc: &[Addr]) -> Result<Result<(), String>, String> {
    let a_of = |i: &u8| acc[*i as usize % acc.len()];
    match (o, gas) {
        (Op::Add(a, _), false) => op("add_amount", || t.add_amount(&a_of(a), v)),
        (Op::Add(a, _), true) => op("add_gas", || t.add_gas(&a_of(a), v)),
        (Op::Set(a, _), _) => op("set_amount", || t.set_amount(&a_of(a), v)),
        (Op::Sub(a, _), false) => op("sub_amount", || t.sub_amount(&a_of(a), v)),
        (Op::Sub(a, _), true) => op("sub_gas", || t.sub_gas(&a_of(a), v)),
        (Op::Send(f, x, _), false) => op("send_amount", || t.send_amount(&a_of(f), &a_of(x), v)),
        (Op::Send(f, x, _), true) => op("send_gas", || t.send_gas(&a_of(f), &a_of(x), v)),
    }
}

impl Property for C18 {
    type Case = Case;
    const ID: &'static str = "C18";
    fn rule() -> &'static str {
        "histories of 1..80 coin and gas operations (add, set, subtract, transfer, transfers to oneself) over 12 accounts (root, extreme, near-identical and random addresses), amounts boundary-biased over 256 bits or relative to the balance or to the remaining room; every balance compared with an exact model after every step, also after a flushed reopen; non-trivial: at least one refused and three effective operations"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(8_000, 200_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let acct = || prop_oneof![3 => 0u8..4, 2 => 0u8..12];
        let o = prop_oneof![
            4 => (acct(), amt()).prop_map(|(a, n)| Op::Add(a, n)),
            1 => (acct(), amt()).prop_map(|(a, n)| Op::Set(a, n)),
            3 => (acct(), amt()).prop_map(|(a, n)| Op::Sub(a, n)),
            6 => (acct(), acct(), amt()).prop_map(|(a, b, n)| Op::Send(a, b, n)),
            1 => (acct(), amt()).prop_map(|(a, n)| Op::Send(a, a, n)),
        ];
        (proptest::collection::vec(arr(33), 4), proptest::collection::vec((o, any::<bool>()), 1..80), proptest::option::weighted(0.2, 0u8..80))
            .prop_map(|(extra, ops, reopen_at)| Case { extra, ops, reopen_at })
            .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut acc = accounts(8);
        acc.extend(c.extra.iter().map(|b| b.a::<33>()));
        let dir = cx.dir();
        let mut t = open_tree(&dir)?;
        let mut f = funds(&t, &acc)?;
        let (mut eff, mut refused) = (0, 0);
        for (i, (o, gas)) in c.ops.iter().enumerate() {
            let gas = *gas && !matches!(o, Op::Set(..));
            let book = if gas { &f.gas } else { &f.coins };
            let (want, v, open) = expect(book, o, &acc);
            let got = apply(&t, o, gas, v, &acc)?;
            if !open {
                ensure!(got.is_ok() == want.is_some(), "{o:?} on {} with amount {v} {}", if gas { "gas" } else { "coins" }, if got.is_ok() { "was accepted although it exceeds what is there or overflows" } else { "was refused" });
            }
            match want {
                Some(b) => {
                    eff += 1;
                    if gas {
                        f.gas = b
                    } else {
                        f.coins = b
                    }
                }
                None => {
                    refused += 1;
                    cx.label("refused");
                }
            }
            let now = funds(&t, &acc)?;
            if now != f {
                let d = acc.iter().find(|a| now.coins[*a] != f.coins[*a] || now.gas[*a] != f.gas[*a]).unwrap();
                return Err(format!(
                    "after {o:?} on {} with amount {v}: account {} has {} coins and {} gas, expected {} and {}",
                    if gas { "gas" } else { "coins" },
                    hex::encode(d),
                    now.coins[d],
                    now.gas[d],
                    f.coins[d],
                    f.gas[d]
                ));
            }
            if c.reopen_at.map(|x| x as usize % c.ops.len()) == Some(i) {
                must("flush", || block_on(t.flush()))?;
                drop(t);
                t = open_tree(&dir)?;
                let now = funds(&t, &acc)?;
                // reopening is judged by C16
                f = now;
                cx.label("reopened");
            }
        }
        if eff >= 3 && refused >= 1 {
            cx.nontrivial();
        }
        cx.units += c.ops.len() as u64;
        Ok(())
    }
}
