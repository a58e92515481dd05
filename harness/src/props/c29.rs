use super::c05::{public, secret};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C29;

const PARTIES: u8 = 5;
const FEE: u64 = 62_500;
const GAS: u64 = 625_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Submit { from: u8, to: u8, amount: u64, data: u8, forged: bool },
    /// somebody receives coins or gas
    Credit(u8, u64, bool),
    /// somebody's coins or gas are taken away, or sent to another account, in units of a submission's price for gas
    Take(u8, u64, bool),
    Move(u8, u8, u64, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// coins beyond the fee, and how many small submissions the gas is for (with a remainder)
    start: Vec<(u64, u8, u64)>,
    rounds: Vec<Vec<Vec<Op>>>,
    reopen: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Done,
    Refused,
    Panic(String),
}
enum Act {
    Tx { x: Transaction, from: u8, to: u8, amount: U256, price: U256, signed: bool },
    Credit(u8, U256, bool),
    Take(u8, U256, bool),
    Move(u8, u8, U256, bool),
}
type Bal = Vec<[U256; 2]>;

/// Submissions and credits as single steps.
fn effect(b: &Bal, a: &Act, out: &Out) -> Option<Bal> {
    let mut n = b.clone();
    let legal = match a {
        Act::Credit(i, v, gas) => {
            n[*i as usize][*gas as usize] += *v;
            true
        }
        Act::Take(..) | Act::Move(..) => unreachable!(),
        Act::Tx { from, to, amount, price, signed, .. } => {
            let (f, t) = (*from as usize, *to as usize);
            let ok = *signed && b[f][0] >= *amount + U256::from(FEE) && b[f][1] >= *price;
            if ok {
                n[f][0] -= *amount;
                n[t][0] += *amount;
                n[f][1] -= *price;
            }
            ok
        }
    };
    match (out, legal) {
        (Out::Done, true) => Some(n),
        (Out::Refused, false) => Some(b.clone()),
        _ => None,
    }
}

/// What an operation that took effect takes away and gives, as (account, gas?, amount).
fn flows(a: &Act) -> (Vec<(usize, usize, U256)>, Vec<(usize, usize, U256)>) {
    match a {
        Act::Credit(i, v, g) => (vec![], vec![(*i as usize, *g as usize, *v)]),
        Act::Take(i, v, g) => (vec![(*i as usize, *g as usize, *v)], vec![]),
        Act::Move(i, j, v, g) => (vec![(*i as usize, *g as usize, *v)], vec![(*j as usize, *g as usize, *v)]),
        Act::Tx { from, to, amount, price, .. } => {
            let (f, t) = (*from as usize, *to as usize);
            (vec![(f, 0, *amount), (f, 1, *price)], vec![(t, 0, *amount)])
        }
    }
}

/// With withdrawals beside the submissions: every balance is what the operations that reported success leave, and
/// none was refused although there was enough at every moment, or done although there never was.
fn accounts(before: &Bal, after: &Bal, acts: &[Vec<Act>], outs: &[Vec<Out>]) -> Result<(), String> {
    let all: Vec<(&Act, &Out)> = acts.iter().flatten().zip(outs.iter().flatten()).collect();
    for i in 0..before.len() {
        for k in 0..2 {
            let kind = ["coins", "gas"][k];
            let sum = |v: Vec<(usize, usize, U256)>| v.into_iter().filter(|x| (x.0, x.1) == (i, k)).fold(U256::zero(), |a, x| a + x.2);
            let (mut got, mut lost, mut most_got, mut most_lost) = (U256::zero(), U256::zero(), U256::zero(), U256::zero());
            for (a, o) in &all {
                let (minus, plus) = flows(a);
                let (minus, plus) = (sum(minus), sum(plus));
                most_got += plus;
                // an operation that is refused may hold what it needs for a moment
                most_lost += minus;
                if **o == Out::Done {
                    got += plus;
                    lost += minus;
                }
            }
            ensure!(
                before[i][k] + got == after[i][k] + lost,
                "account {i} had {} {kind}; the operations that reported success gave it {got} and took {lost}; it has {} now",
                before[i][k],
                after[i][k]
            );
            for (a, o) in &all {
                let need = match a {
                    Act::Tx { signed: false, .. } => {
                        ensure!(**o == Out::Refused, "a submission without a valid signature was accepted");
                        continue;
                    }
                    Act::Tx { from, amount, .. } if (*from as usize, 0) == (i, k) => *amount + U256::from(FEE),
                    _ => sum(flows(a).0),
                };
                if need.is_zero() {
                    continue;
                }
                ensure!(**o == Out::Refused || before[i][k] + most_got >= need, "an operation that needs {need} {kind} of account {i} reported success");
            }
        }
    }
    for (a, o) in &all {
        if **o == Out::Refused && !matches!(a, Act::Tx { signed: false, .. }) {
            let enough = flows(a).0.iter().all(|&(i, k, v)| {
                let others: U256 = all
                    .iter()
                    .filter(|(b, _)| !std::ptr::eq(*b, *a))
                    .flat_map(|(b, _)| flows(b).0)
                    .filter(|x| (x.0, x.1) == (i, k))
                    .fold(U256::zero(), |s, x| s + x.2);
                let need = if k == 0 && matches!(a, Act::Tx { .. }) { v + U256::from(FEE) } else { v };
                before[i][k] >= need + others
            });
            ensure!(!enough, "an operation was refused although its account had enough whatever the others took");
        }
    }
    Ok(())
}

impl Property for C29 {
    type Case = Case;
    const ID: &'static str = "C29";
    fn rule() -> &'static str {
        "1..4 rounds on one tree of 2..3 threads, started together, each with 1..6 submissions of distinct signed (some forged) transactions between 5 keys and credits of coins and gas, in some rounds direct withdrawals and transfers too, with coins and gas for some of the operations only; all outcomes, stored transactions and final balances must be explained by one order of the submissions (searched exhaustively over positions), also after a reopen; in rounds with withdrawals the balances must be those the operations that reported success leave, with nothing stored for a refused submission; non-trivial: two threads submitted for the same sender in a round"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4_000, 80_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec![
            "the schedules are those the operating system gives to threads released by a spin barrier on a machine with more runnable threads than cores",
            "in rounds with direct withdrawals no single order is required: a submission may hold its sender's gas for a moment before it is refused",
        ]
    }
    fn replay_times() -> u32 {
        40
    }
    fn max_shrink_iters() -> u32 {
        300
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let am = || prop_oneof![5 => 0u64..4, 3 => 0u64..40, 2 => (0u64..3).prop_map(|k| FEE / 2 * k), 1 => 0u64..1 << 40];
        let who = |top: u8| 0..top;
        let rounds = (2usize..=3, 1u8..=3).prop_flat_map(move |(threads, senders)| {
            let o = prop_oneof![
                9 => (who(senders), who(PARTIES), am(), prop_oneof![3 => Just(0u8), 1 => 0u8..60], prop::bool::weighted(0.05)).prop_map(|(from, to, amount, data, forged)| Op::Submit { from, to, amount, data, forged }),
                1 => (who(senders), am(), Just(false)).prop_map(|(a, n, g)| Op::Credit(a, n, g)),
                1 => (who(senders), prop_oneof![Just(GAS * 140), 0..GAS * 400], Just(true)).prop_map(|(a, n, g)| Op::Credit(a, n, g)),
            ];
            let w = prop_oneof![
                1 => (who(senders), am(), Just(false)).prop_map(|(a, n, g)| Op::Take(a, n, g)),
                1 => (who(senders), 0u64..3, Just(true)).prop_map(|(a, n, g)| Op::Take(a, n, g)),
                1 => (who(senders), who(PARTIES), am(), Just(false)).prop_filter_map("itself", |(a, b, n, g)| (a != b).then_some(Op::Move(a, b, n, g))),
                1 => (who(senders), who(PARTIES), 0u64..3, Just(true)).prop_filter_map("itself", |(a, b, n, g)| (a != b).then_some(Op::Move(a, b, n, g))),
            ];
            let mixed = prop_oneof![2 => o.clone(), 1 => w];
            let lists = |o: BoxedStrategy<Op>| proptest::collection::vec(proptest::collection::vec(o, 1..=6), threads);
            proptest::collection::vec(prop_oneof![3 => lists(o.boxed()), 1 => lists(mixed.boxed())], 1..4)
        });
        let start = (am(), 0u8..8, prop_oneof![Just(0u64), 0..GAS * 140]);
        (proptest::collection::vec(start, PARTIES as usize), rounds, prop::bool::weighted(0.2)).prop_map(|(start, rounds, reopen)| Case { start, rounds, reopen }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let mut t = open_tree(&dir)?;
        let keys: Vec<_> = (0..PARTIES).map(|i| secret(&B(vec![i + 2; 32]))).collect();
        let acc: Vec<Addr> = keys.iter().map(public).collect();
        // the size of a submission without payload and with a one-byte amount
        let unit = {
            let x = Transaction::new_signed(acc[0], acc[1], 0, U256::one(), None, [0; 64]);
            U256::from(must("dump", || x.dump())?.len()) * U256::from(GAS)
        };
        for (a, (coins, n, rest)) in acc.iter().zip(&c.start) {
            must("set_amount", || t.set_amount(a, U256::from(*coins) + U256::from(FEE)))?;
            must("add_gas", || t.add_gas(a, unit * U256::from(*n) + U256::from(*rest)))?;
        }
        let read = |t: &blockchaintree::blockchaintree::BlockChainTree| -> Result<Bal, String> {
            let f = funds(t, &acc)?;
            Ok(acc.iter().map(|a| [f.coins[a], f.gas[a]]).collect())
        };
        let mut stamp = 0u64;
        for q in &c.rounds {
            let before = read(&t)?;
            let mut acts: Vec<Vec<Act>> = vec![];
            for ops in q {
                let mut v = vec![];
                for o in ops {
                    v.push(match o {
                        Op::Credit(a, n, g) => Act::Credit(*a, (*n).into(), *g),
                        Op::Take(a, n, g) => Act::Take(*a, if *g { unit * U256::from(*n) } else { (*n).into() }, *g),
                        Op::Move(a, b, n, g) => Act::Move(*a, *b, if *g { unit * U256::from(*n) } else { (*n).into() }, *g),
                        Op::Submit { from, to, amount, data, forged } => {
                            stamp += 1;
                            let d = (*data > 0).then(|| vec![7u8; *data as usize]);
                            let (f, to_) = (acc[*from as usize], acc[*to as usize]);
                            let signer = &keys[if *forged { (*from as usize + 1) % keys.len() } else { *from as usize }];
                            let am = U256::from(*amount);
                            let sig = must("generate_signature", || Transaction::generate_signature(&f, &to_, stamp, &am, d.as_deref(), &signer.secret_bytes()))?;
                            let x = Transaction::new_signed(f, to_, stamp, am, d, sig);
                            let price = U256::from(must("dump", || x.dump())?.len()) * U256::from(GAS);
                            Act::Tx { x, from: *from, to: *to, amount: am, price, signed: !*forged }
                        }
                    });
                }
                acts.push(v);
            }
            let outs = together(&acts, |a| {
                let r = guard(|| match a {
                    Act::Tx { x, .. } => t.send_transaction(x).is_ok(),
                    Act::Credit(i, v, false) => t.add_amount(&acc[*i as usize], *v).is_ok(),
                    Act::Credit(i, v, true) => t.add_gas(&acc[*i as usize], *v).is_ok(),
                    Act::Take(i, v, false) => t.sub_amount(&acc[*i as usize], *v).is_ok(),
                    Act::Take(i, v, true) => t.sub_gas(&acc[*i as usize], *v).is_ok(),
                    Act::Move(i, j, v, false) => t.send_amount(&acc[*i as usize], &acc[*j as usize], *v).is_ok(),
                    Act::Move(i, j, v, true) => t.send_gas(&acc[*i as usize], &acc[*j as usize], *v).is_ok(),
                });
                match r {
                    Ok(true) => Out::Done,
                    Ok(false) => Out::Refused,
                    Err(p) => Out::Panic(p),
                }
            });
            if let Some(p) = outs.iter().flatten().find_map(|o| if let Out::Panic(p) = o { Some(p) } else { None }) {
                return Err(format!("concurrent submissions: {p}"));
            }
            if c.reopen {
                must("flush", || block_on(t.flush()))?;
                drop(t);
                t = open_tree(&dir)?;
                cx.label("reopened");
            }
            let after = read(&t)?;
            if acts.iter().flatten().any(|a| matches!(a, Act::Take(..) | Act::Move(..))) {
                accounts(&before, &after, &acts, &outs)?;
                cx.label("with withdrawals beside the submissions");
            } else {
                let Some(ends) = explain(&before, &acts, &outs, effect) else {
                    cx.label("not decided: too many orders to tell apart");
                    continue;
                };
                let show = |b: &Bal| b.iter().map(|x| format!("{}c/{}g", x[0], x[1])).collect::<Vec<_>>().join(" ");
                ensure!(
                    ends.contains(&after),
                    "{} threads with {} operations ({} refused) took the accounts from {} to {}, which no order of the submissions explains{}",
                    q.len(),
                    q.iter().map(|t| t.len()).sum::<usize>(),
                    outs.iter().flatten().filter(|o| **o == Out::Refused).count(),
                    show(&before),
                    show(&after),
                    match ends.first() {
                        Some(e) => format!(" (an order that explains the outcomes ends at {})", show(e)),
                        None => " (no order explains the reported outcomes)".to_string(),
                    }
                );
            }
            let ch = t.get_main_chain();
            for (a, o) in acts.iter().flatten().zip(outs.iter().flatten()) {
                if let Act::Tx { x, .. } = a {
                    let raw = must("get_transaction_raw", || ch.get_transaction_raw(&x.hash()))?;
                    if *o == Out::Done {
                        ensure!(raw == Some(must("dump", || x.dump())?), "an accepted transaction is not found as it was submitted");
                    } else {
                        ensure!(raw.is_none(), "a refused submission stored the transaction");
                    }
                }
            }
            let sends = |ops: &Vec<Op>, a: u8| ops.iter().any(|o| matches!(o, Op::Submit { from, .. } if *from == a));
            if (0..3u8).any(|a| q.iter().filter(|t| sends(t, a)).count() >= 2) {
                cx.nontrivial();
            }
            cx.label(format!("{} threads", q.len()));
            if acts.iter().flatten().zip(outs.iter().flatten()).any(|(a, o)| matches!(a, Act::Tx { signed: true, .. }) && *o == Out::Refused) {
                cx.label("some refused for lack of funds");
            }
            cx.units += 1;
        }
        Ok(())
    }
}
