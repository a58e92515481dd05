use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use blockchaintree::blockchaintree::BlockChainTree;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C19;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(u8, N),
    Sub(u8, N),
    Send(u8, u8, N),
    Set(u8, N),
    Get(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    /// per thread: (operation, on gas)
    threads: Vec<Vec<(Op, bool)>>,
    /// on accounts that have no record yet
    #[serde(default)]
    fresh: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    start: Vec<(N, N)>,
    rounds: Vec<Round>,
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Done,
    Refused,
    Value(U256),
    Panic(String),
}

type Bal = Vec<[U256; 2]>;

/// The balances after the operation, or None if that outcome is impossible here.
fn effect(b: &Bal, o: &Op, gas: bool, out: &Out) -> Option<Bal> {
    let k = gas as usize;
    let mut n = b.clone();
    let legal = match o {
        Op::Get(a) => return (*out == Out::Value(b[*a as usize][k])).then_some(n),
        Op::Set(a, v) => {
            n[*a as usize][0] = v.0;
            true
        }
        Op::Add(a, v) => match b[*a as usize][k].checked_add(v.0) {
            Some(x) => {
                n[*a as usize][k] = x;
                true
            }
            None => false,
        },
        Op::Sub(a, v) => match b[*a as usize][k].checked_sub(v.0) {
            Some(x) => {
                n[*a as usize][k] = x;
                true
            }
            None => false,
        },
        Op::Send(f, t, v) => {
            if f == t {
                // nothing may change; more than the balance may be refused or not
                return (*out == Out::Done || (*out == Out::Refused && b[*f as usize][k] < v.0)).then_some(n);
            }
            match (b[*f as usize][k].checked_sub(v.0), b[*t as usize][k].checked_add(v.0)) {
                (Some(x), Some(y)) => {
                    n[*f as usize][k] = x;
                    n[*t as usize][k] = y;
                    true
                }
                _ => false,
            }
        }
    };
    match (out, legal) {
        (Out::Done, true) => Some(n),
        (Out::Refused, false) => Some(b.clone()),
        _ => None,
    }
}

fn one(t: &BlockChainTree, acc: &[Addr], o: &Op, gas: bool) -> Out {
    let a = |i: &u8| acc[*i as usize];
    let r = guard(|| match (o, gas) {
        (Op::Add(x, v), false) => t.add_amount(&a(x), v.0).map(|_| None),
        (Op::Add(x, v), true) => t.add_gas(&a(x), v.0).map(|_| None),
        (Op::Sub(x, v), false) => t.sub_amount(&a(x), v.0).map(|_| None),
        (Op::Sub(x, v), true) => t.sub_gas(&a(x), v.0).map(|_| None),
        (Op::Send(x, y, v), false) => t.send_amount(&a(x), &a(y), v.0).map(|_| None),
        (Op::Send(x, y, v), true) => t.send_gas(&a(x), &a(y), v.0).map(|_| None),
        (Op::Set(x, v), _) => t.set_amount(&a(x), v.0).map(|_| None),
        (Op::Get(x), false) => t.get_amount(&a(x)).map(Some),
        (Op::Get(x), true) => t.get_gas(&a(x)).map(Some),
    });
    match r {
        Ok(Ok(None)) => Out::Done,
        Ok(Ok(Some(v))) => Out::Value(v),
        Ok(Err(_)) => Out::Refused,
        Err(p) => Out::Panic(p),
    }
}

impl Property for C19 {
    type Case = Case;
    const ID: &'static str = "C19";
    fn rule() -> &'static str {
        "1..6 rounds on one tree of 2..4 threads, started together, each with 1..24 coin and gas operations (add, subtract, transfer, set, read) on 1..3 shared accounts (in some rounds ones without a record) with amounts near the balances; all outcomes, read values and final balances must be explained by one interleaving of the threads (searched exhaustively over positions); non-trivial: at least two threads changed the same account in a round"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4_000, 80_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["the schedules are those the operating system gives to threads released by a spin barrier on a machine with more runnable threads than cores"]
    }
    fn replay_times() -> u32 {
        40
    }
    fn max_shrink_iters() -> u32 {
        300
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let am = || prop_oneof![6 => (0u64..4).prop_map(|x| N(x.into())), 3 => (0u64..40).prop_map(|x| N(x.into())), 1 => amount(), 1 => num()];
        let rounds = (2usize..=4, 1u8..=3).prop_flat_map(move |(threads, accts)| {
            let acc = move || 0..accts;
            let o = prop_oneof![
                5 => (acc(), am()).prop_map(|(a, n)| Op::Add(a, n)),
                4 => (acc(), am()).prop_map(|(a, n)| Op::Sub(a, n)),
                7 => (acc(), acc(), am()).prop_map(|(a, b, n)| Op::Send(a, b, n)),
                2 => acc().prop_map(Op::Get),
            ];
            let o = (o, any::<bool>()).prop_map(|(o, g)| {
                let g = g && !matches!(o, Op::Set(..));
                (o, g)
            });
            let max = match threads {
                2 => 24,
                3 => 16,
                _ => 10,
            };
            let set = proptest::option::weighted(0.4, (0..threads, any::<prop::sample::Index>(), acc(), am()));
            let round = (proptest::collection::vec(proptest::collection::vec(o, 1..=max), threads), set).prop_map(|(mut threads, set)| {
                // sets do not commute with the others: at most one
                if let Some((t, at, a, n)) = set {
                    let at = at.index(threads[t].len());
                    threads[t][at] = (Op::Set(a, n), false);
                }
                Round { threads, fresh: false }
            });
            let round = (round, proptest::bool::weighted(0.4)).prop_map(|(mut q, fresh)| {
                q.fresh = fresh;
                q
            });
            proptest::collection::vec(round, 1..6)
        });
        (proptest::collection::vec((am(), am()), 3), rounds).prop_map(|(start, rounds)| Case { start, rounds }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let t = open_tree(&dir)?;
        let mut acc: Vec<Addr> = [4, 5, 6].map(addr).to_vec();
        for (a, (n, g)) in acc.iter().zip(&c.start) {
            must("set_amount", || t.set_amount(a, n.0))?;
            must("add_gas", || t.add_gas(a, g.0))?;
        }
        let read = |acc: &[Addr]| -> Result<Bal, String> {
            let f = funds(&t, acc)?;
            Ok(acc.iter().map(|a| [f.coins[a], f.gas[a]]).collect())
        };
        for (k, q) in c.rounds.iter().enumerate() {
            if q.fresh {
                acc = (0..3u8).map(|i| [0x40 + 4 * k as u8 + i; 33]).collect();
                cx.label("accounts without a record");
            }
            let before = read(&acc)?;
            let n = q.threads.len();
            let outs = together(&q.threads, |(o, g)| one(&t, &acc, o, *g));
            if let Some(p) = outs.iter().flatten().find_map(|o| if let Out::Panic(p) = o { Some(p) } else { None }) {
                return Err(format!("concurrent balance operations: {p}"));
            }
            let after = read(&acc)?;
            let Some(ends) = explain(&before, &q.threads, &outs, |b, (o, g), out| effect(b, o, *g, out)) else {
                cx.label("not decided: too many orders to tell apart");
                continue;
            };
            if !ends.contains(&after) {
                let show = |b: &Bal| b.iter().map(|x| format!("{}c/{}g", x[0], x[1])).collect::<Vec<_>>().join(" ");
                let refused = outs.iter().flatten().filter(|o| **o == Out::Refused).count();
                return Err(format!(
                    "{n} threads with {} operations ({refused} refused) took the accounts from {} to {}, which no order of the operations explains{}",
                    outs.iter().map(|o| o.len()).sum::<usize>(),
                    show(&before),
                    show(&after),
                    match ends.first() {
                        Some(e) => format!(" (an order that explains the outcomes ends at {})", show(e)),
                        None => " (no order explains the reported outcomes and read values)".to_string(),
                    }
                ));
            }
            let touched = |ops: &Vec<(Op, bool)>, a: u8| ops.iter().any(|(o, _)| matches!(o, Op::Add(x, _) | Op::Sub(x, _) | Op::Set(x, _) if *x == a) || matches!(o, Op::Send(x, y, _) if *x == a || *y == a));
            if (0..3u8).any(|a| q.threads.iter().filter(|t| touched(t, a)).count() >= 2) {
                cx.nontrivial();
            }
            cx.label(format!("{n} threads"));
            if outs.iter().flatten().any(|o| *o == Out::Refused) {
                cx.label("some refused");
            }
            cx.units += 1;
        }
        Ok(())
    }
}
