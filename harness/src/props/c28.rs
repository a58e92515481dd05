use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use blockchaintree::summary_db::SummaryDB;
use num_bigint::BigUint;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C28;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(u8, N),
    Take(u8, N),
    Get(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    start: Vec<N>,
    rounds: Vec<Vec<Vec<Op>>>,
    reopen: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Done,
    Refused,
    Value(BigUint),
    Panic(String),
}
/// None: never received anything
type Bal = Vec<Option<U256>>;

fn big(v: U256) -> BigUint {
    let mut be = [0u8; 32];
    v.to_big_endian(&mut be);
    BigUint::from_bytes_be(&be)
}

fn effect(b: &Bal, o: &Op, out: &Out) -> Option<Bal> {
    let mut n = b.clone();
    let legal = match o {
        Op::Get(a) => return (*out == Out::Value(big(b[*a as usize].unwrap_or_default()))).then_some(n),
        Op::Add(_, v) if v.0.is_zero() => true,
        Op::Add(a, v) => match b[*a as usize].unwrap_or_default().checked_add(v.0) {
            Some(x) => {
                n[*a as usize] = Some(x);
                true
            }
            None => false,
        },
        Op::Take(a, v) => match b[*a as usize] {
            // taking nothing from an address without funds may be refused or not
            None if v.0.is_zero() => return matches!(out, Out::Done | Out::Refused).then_some(n),
            None => false,
            Some(x) => match x.checked_sub(v.0) {
                Some(x) => {
                    n[*a as usize] = Some(x);
                    true
                }
                None => false,
            },
        },
    };
    match (out, legal) {
        (Out::Done, true) => Some(n),
        (Out::Refused, false) => Some(b.clone()),
        _ => None,
    }
}

fn one(db: &SummaryDB, acc: &[Addr], o: &Op) -> Out {
    let a = |i: &u8| acc[*i as usize];
    let r = guard(|| match o {
        Op::Add(x, v) => block_on(db.add_funds(&a(x), &v.0)).map(|_| None),
        Op::Take(x, v) => block_on(db.decrease_funds(&a(x), &v.0)).map(|_| None),
        Op::Get(x) => db.get_funds(&a(x)).map(Some),
    });
    match r {
        Ok(Ok(None)) => Out::Done,
        Ok(Ok(Some(v))) => Out::Value(v),
        Ok(Err(_)) => Out::Refused,
        Err(p) => Out::Panic(p),
    }
}

impl Property for C28 {
    type Case = Case;
    const ID: &'static str = "C28";
    fn rule() -> &'static str {
        "1..6 rounds on one funds store of 2..4 threads, started together, each with 1..12 additions, withdrawals and reads on 1..3 shared addresses with amounts near the balances; all outcomes, read values and final balances must be explained by one interleaving of the threads (searched exhaustively over positions), also after a reopen; non-trivial: at least two threads changed the same address in a round"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4_000, 80_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["the schedules are those the operating system gives to threads released by a spin barrier on a machine with more runnable threads than cores", "the threads share one store object"]
    }
    fn replay_times() -> u32 {
        40
    }
    fn max_shrink_iters() -> u32 {
        300
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let am = || prop_oneof![6 => (0u64..4).prop_map(|x| N(x.into())), 3 => (0u64..40).prop_map(|x| N(x.into())), 1 => amount(), 1 => num()];
        let rounds = (2usize..=4, 1u8..=3).prop_flat_map(move |(threads, accts)| {
            let acc = move || 0..accts;
            let o = prop_oneof![
                6 => (acc(), am()).prop_map(|(a, n)| Op::Add(a, n)),
                5 => (acc(), am()).prop_map(|(a, n)| Op::Take(a, n)),
                2 => acc().prop_map(Op::Get),
            ];
            let max = match threads {
                2 => 12,
                3 => 9,
                _ => 6,
            };
            proptest::collection::vec(proptest::collection::vec(proptest::collection::vec(o, 1..=max), threads), 1..6)
        });
        (proptest::collection::vec(am(), 3), rounds, prop::bool::weighted(0.2)).prop_map(|(start, rounds, reopen)| Case { start, rounds, reopen }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir().join("db");
        let mut db = SummaryDB::new(open_sled(&dir)?);
        let acc: Vec<Addr> = [4, 5, 6].map(addr).to_vec();
        let mut bal: Bal = vec![None; 3];
        for (i, n) in c.start.iter().enumerate() {
            must("add_funds", || block_on(db.add_funds(&acc[i], &n.0)))?;
            if !n.0.is_zero() {
                bal[i] = Some(n.0);
            }
        }
        for q in &c.rounds {
            let outs = together(q, |o| one(&db, &acc, o));
            if let Some(p) = outs.iter().flatten().find_map(|o| if let Out::Panic(p) = o { Some(p) } else { None }) {
                return Err(format!("concurrent changes of the funds store: {p}"));
            }
            if c.reopen {
                drop(db);
                db = SummaryDB::new(open_sled(&dir)?);
                cx.label("reopened");
            }
            let after: Vec<BigUint> = acc.iter().map(|a| must("get_funds", || db.get_funds(a))).collect::<Result<_, _>>()?;
            let Some(ends) = explain(&bal, q, &outs, effect) else {
                cx.label("not decided: too many orders to tell apart");
                return Ok(());
            };
            let fits: Vec<&Bal> = ends.iter().filter(|e| e.iter().zip(&after).all(|(x, y)| big(x.unwrap_or_default()) == *y)).collect();
            ensure!(
                !fits.is_empty(),
                "{} threads with {} operations ({} refused) took the funds from {bal:?} to {after:?}, which no order of the operations explains{}",
                q.len(),
                q.iter().map(|t| t.len()).sum::<usize>(),
                outs.iter().flatten().filter(|o| **o == Out::Refused).count(),
                match ends.first() {
                    Some(e) => format!(" (an order that explains the outcomes ends at {e:?})"),
                    None => " (no order explains the reported outcomes and read values)".to_string(),
                }
            );
            // whether an address ever received anything is the same in every order
            bal = fits[0].clone();
            let touched = |ops: &Vec<Op>, a: u8| ops.iter().any(|o| matches!(o, Op::Add(x, _) | Op::Take(x, _) if *x == a));
            if (0..3u8).any(|a| q.iter().filter(|t| touched(t, a)).count() >= 2) {
                cx.nontrivial();
            }
            cx.label(format!("{} threads", q.len()));
            if outs.iter().flatten().any(|o| *o == Out::Refused) {
                cx.label("some refused");
            }
            cx.units += 1;
        }
        Ok(())
    }
}
