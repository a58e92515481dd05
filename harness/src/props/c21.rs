use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block;
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;

pub struct C21;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bal {
    Add(u8, N, bool),
    Set(u8, N),
    Send(u8, u8, N, bool),
    /// many accounts
    Many(u16, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    /// the epoch whose first block is approached (its number), or another height
    epoch: N,
    /// how many blocks before the boundary
    lead: u8,
    funds: Vec<Bal>,
    zeros: u8,
    gap: i64,
    seed: u32,
    /// close and reopen just before the boundary
    reopen: bool,
    /// otherwise: changes of coins or gas that are not flushed before the boundary
    #[serde(default)]
    late: Vec<(u8, N, bool)>,
    #[serde(default)]
    late_many: u16,
    tries: Vec<(bool, Pow)>,
    founder: u8,
    after: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    rounds: Vec<Round>,
    /// heights away from boundaries where only transaction blocks appear
    between: Option<N>,
}

type Raw = BTreeMap<Vec<u8>, Vec<u8>>;

fn read(dir: &Path, name: &str) -> Result<Raw, String> {
    let db = open_sled(&dir.join(name))?;
    let mut m = BTreeMap::new();
    for e in db.iter() {
        let (k, v) = e.map_err(|e| format!("reading {name}: {e}"))?;
        m.insert(k.to_vec(), v.to_vec());
    }
    Ok(m)
}

fn filler(t: &blockchaintree::blockchaintree::BlockChainTree, h: U256, zeros: u32, ts: u64) -> Result<(), String> {
    let i = block::BasicInfo::new(ts, [7; 32], [8; 32], h, r::difficulty_of(zeros), addr(5));
    must("add_block", || t.get_main_chain().add_block(Arc::new(block::TransactionBlock::new(1.into(), i, [0; 32], vec![[1; 32]]))))
}

fn apply(t: &blockchaintree::blockchaintree::BlockChainTree, b: &Bal) -> Result<(), String> {
    match b {
        Bal::Add(a, n, false) => drop(guard(|| t.add_amount(&addr(*a), n.0))),
        Bal::Add(a, n, true) => drop(guard(|| t.add_gas(&addr(*a), n.0))),
        Bal::Set(a, n) => must("set_amount", || t.set_amount(&addr(*a), n.0))?,
        Bal::Send(a, b, n, false) => drop(guard(|| t.send_amount(&addr(*a), &addr(*b), n.0))),
        Bal::Send(a, b, n, true) => drop(guard(|| t.send_gas(&addr(*a), &addr(*b), n.0))),
        Bal::Many(n, s) => {
            for i in 0..*n {
                let a = expand(s.wrapping_add(i as u64), 33, 0);
                must("set_amount", || t.set_amount(&a, U256::from(i) + 1))?;
                if i % 2 == 0 {
                    must("add_gas", || t.add_gas(&a, U256::from(i)))?;
                }
            }
        }
    }
    Ok(())
}

/// The commitment over raw balance records.
fn commitment(coins: &Raw, gas: &Raw) -> r::H {
    let leaves: Vec<r::H> = coins
        .iter()
        .map(|(a, c)| {
            let mut v = a.clone();
            v.push(b'|');
            v.extend_from_slice(c);
            v.push(b'|');
            v.extend_from_slice(gas.get(a).map(|g| &g[..]).unwrap_or(&[]));
            r::sha(&v)
        })
        .collect();
    r::merkle_root(&leaves)
}

fn api_agrees(t: &blockchaintree::blockchaintree::BlockChainTree, coins: &Raw, gas: &Raw) -> Result<(), String> {
    for i in 0..12u8 {
        let a = addr(i);
        let c = must("get_amount", || t.get_amount(&a))?;
        let g = must("get_gas", || t.get_gas(&a))?;
        let rec = |m: &Raw| m.get(&a[..]).cloned();
        ensure!(rec(coins).map_or(c.is_zero(), |v| v == r::enc_u256(&c)), "the coin record of account {i} does not encode its balance {c}");
        ensure!(rec(gas).map_or(g.is_zero(), |v| v == r::enc_u256(&g)), "the gas record of account {i} does not encode its balance {g}");
    }
    Ok(())
}

impl Property for C21 {
    type Case = Case;
    const ID: &'static str = "C21";
    fn rule() -> &'static str {
        "1..3 epoch boundaries (epoch numbers 1, 2, small, huge) on one real tree, approached by emission from up to 3 blocks before; up to 120 accounts (rarely thousands) with extreme coin and gas balances, zero entries, gas without coins; changes of few or hundreds of accounts that nothing has flushed yet; refused attempts with transactions or a bad nonce before the real one; the summary block's fields and root compared with a reference over the raw balance records, previous-epoch records, refill and all balances compared; heights around boundaries checked to give transaction blocks only; non-trivial: at least 3 coin accounts at a boundary"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_600, 40_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["boundaries are reached by rewriting the recorded height and appending a filler block through the public API, instead of a million emissions"]
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let bal = prop_oneof![
            4 => (0u8..12, amount(), any::<bool>()).prop_map(|(a, n, g)| Bal::Add(a, n, g)),
            3 => (0u8..12, num()).prop_map(|(a, n)| Bal::Set(a, n)),
            3 => (0u8..12, 0u8..12, amount(), any::<bool>()).prop_map(|(a, b, n, g)| Bal::Send(a, b, n, g)),
            1 => (prop_oneof![30 => 1u16..100, 1 => 1_000u16..3_000], any::<u64>()).prop_map(|(n, s)| Bal::Many(n, s)),
        ];
        let epoch = prop_oneof![5 => Just(N(1.into())), 2 => Just(N(2.into())), 2 => (3u64..2000).prop_map(|x| N(x.into())), 1 => num().prop_map(|n| N(n.0 >> 32))];
        let round = (
            (epoch, 1u8..4, proptest::collection::vec(bal, 0..14), 1u8..=8, gap(), any::<u32>()),
            (any::<bool>(), proptest::collection::vec((any::<bool>(), pow(2)), 0..4), 0u8..8, 0u8..3),
            (proptest::collection::vec((0u8..16, amount(), any::<bool>()), 0..6), prop_oneof![6 => Just(0u16), 2 => 1u16..60, 1 => 60u16..600]),
        )
            .prop_map(|((epoch, lead, funds, zeros, gap, seed), (reopen, tries, founder, after), (late, late_many))| Round { epoch, lead, funds, zeros, gap, seed, reopen, late, late_many, tries, founder, after });
        let between = prop_oneof![2 => Just(None).boxed(), 1 => prop_oneof![num(), (0u64..3_000_000).prop_map(|x| N(x.into())).boxed(), (0u32..40).prop_map(|k| N(U256::one() << k)).boxed(), (1u64..1000, -3i64..=3).prop_map(|(k, d)| N(U256::from((k * 1_000_000) as i64 as u64).overflowing_add(if d < 0 { U256::zero().overflowing_sub(U256::from(-d as u64)).0 } else { U256::from(d as u64) }).0)).boxed(),
            proptest::sample::select(vec![1_000u64, 10_000, 100_000, 500_000, 65_536, 131_072, 1_048_576, 999_000]).prop_map(|x| N(x.into())).boxed()].prop_map(Some).boxed()];
        (proptest::collection::vec(round, 0..3), between).prop_map(|(rounds, between)| Case { rounds, between }).boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let mut t = open_tree(&dir)?;
        let mut height = U256::one();
        let million = U256::from(1_000_000u64);
        if let Some(b) = &c.between {
            // the next block is at this height, which is no boundary
            let mut h = b.0.clamp(U256::from(2), U256::MAX >> 8);
            if (h % million).is_zero() {
                h += U256::one();
            }
            must("flush", || block_on(t.flush()))?;
            drop(t);
            fast_forward(&main_config(&dir), height, h - 1)?;
            t = open_tree(&dir)?;
            filler(&t, h - 1, 2, 1_000)?;
            let last = must("last block", || t.get_main_chain().get_last_block())?.ok_or("no last block")?;
            let ph = must("hash", || last.hash())?;
            let d = last.get_info().difficulty;
            let n = r::mine(&ph, &d, &[], 1, true);
            let res = emit_main(&mut t, &n, &addr(1), &[], 5_000)?;
            ensure!(res.is_err(), "a block without transactions was emitted at height {h}");
            let n = r::mine(&ph, &d, &[[1; 32]], 1, true);
            match emit_main(&mut t, &n, &addr(1), &[[1; 32]], 5_000)? {
                Ok(b) => ensure!(b.get_type() as u8 == 2 && b.get_info().height == h, "the block at height {h} is not a transaction block"),
                Err(e) => return Err(format!("a transaction block was refused at height {h}: {}", e.lines().next().unwrap_or(""))),
            }
            height = h + 1;
            cx.label("height between boundaries");
        }
        for (k, q) in c.rounds.iter().enumerate() {
            let boundary = {
                let e = q.epoch.0.clamp(U256::one(), U256::MAX >> 24) * million;
                // boundaries only lie ahead
                let min = (height / million + 1) * million;
                if e <= height + 4 { min + million } else { e }
            };
            for b in &q.funds {
                apply(&t, b)?;
            }
            // go to just before the boundary
            must("flush", || block_on(t.flush()))?;
            drop(t);
            let start = boundary - q.lead as u64;
            fast_forward(&main_config(&dir), height, start)?;
            t = open_tree(&dir)?;
            filler(&t, start, q.zeros as u32, 10_000)?;
            height = start + 1;
            let mut ts = 10_000u64;
            while height < boundary {
                let last = must("last block", || t.get_main_chain().get_last_block())?.ok_or("no last block")?;
                let d = last.get_info().difficulty;
                ts = add_gap(ts, 601);
                let n = r::mine(&must("hash", || last.hash())?, &d, &[[6; 32]], q.seed as u64, true);
                match emit_main(&mut t, &n, &addr(q.founder), &[[6; 32]], ts)? {
                    Ok(b) => ensure!(b.get_type() as u8 == 2, "the block at height {height} is not a transaction block"),
                    Err(e) => return Err(format!("the block at height {height} was refused: {}", e.lines().next().unwrap_or(""))),
                }
                height += U256::one();
            }
            // the records just before the boundary
            must("flush", || block_on(t.flush()))?;
            drop(t);
            let (mut coins, mut gas) = (read(&dir, "SUMMARY")?, read(&dir, "GASSUMMARY")?);
            let (oldc, oldg) = (read(&dir, "SUMMARYOLD")?, read(&dir, "GASSUMMARYOLD")?);
            t = open_tree(&dir)?;
            if !q.reopen {
                // make the live handles dirty again: the same balances written once more
                let a = addr(9);
                let v = must("get_amount", || t.get_amount(&a))?;
                if coins.contains_key(&a[..]) {
                    must("set_amount", || t.set_amount(&a, v))?;
                }
                for (a, n, is_gas) in &q.late {
                    let a = addr(*a);
                    if !is_gas {
                        must("set_amount", || t.set_amount(&a, n.0))?;
                        coins.insert(a.to_vec(), r::enc_u256(&n.0));
                    } else if !n.0.is_zero() {
                        let v = must("get_gas", || t.get_gas(&a))?;
                        if let Some(v) = v.checked_add(n.0) {
                            must("add_gas", || t.add_gas(&a, n.0))?;
                            gas.insert(a.to_vec(), r::enc_u256(&v));
                        }
                    }
                    cx.label("changes not flushed before the boundary");
                }
                for i in 0..q.late_many {
                    let (a, v) = (expand(q.seed as u64 ^ 0x5eed_0000_0000 ^ i as u64, 33, 0), U256::from(i) + 1);
                    if coins.contains_key(&a) || gas.contains_key(&a) {
                        continue;
                    }
                    must("set_amount", || t.set_amount(&a, v))?;
                    coins.insert(a.clone(), r::enc_u256(&v));
                    if i % 3 == 0 {
                        must("add_gas", || t.add_gas(&a, v))?;
                        gas.insert(a, r::enc_u256(&v));
                    }
                }
            }
            api_agrees(&t, &coins, &gas)?;
            if coins.len() >= 3 {
                cx.nontrivial();
            }
            cx.label(match coins.len() {
                0..=2 => "0-2 coin accounts",
                3..=20 => "3-20 coin accounts",
                _ => ">20 coin accounts",
            });
            let last = must("last block", || t.get_main_chain().get_last_block())?.ok_or("no last block")?;
            let prev = must("hash", || last.hash())?;
            let li = last.get_info().clone();
            let acc = accounts(12);
            let before = funds(&t, &acc)?;
            let ts = add_gap(li.timestamp, q.gap);
            let mut tries = q.tries.clone();
            tries.push((false, Pow::Good(q.seed)));
            for (with_txs, p) in &tries {
                let txs: Vec<r::H> = if *with_txs { vec![[6; 32]] } else { vec![] };
                let (n, ok) = nonce(p, &prev, &li.previous_hash, &li.difficulty, &txs);
                let expect = ok && !*with_txs;
                let res = emit_main(&mut t, &n, &addr(q.founder), &txs, ts)?;
                match res {
                    Err(e) => {
                        ensure!(!expect, "the summary block at height {boundary} was refused: {}", e.lines().take(4).collect::<Vec<_>>().join(" | "));
                        ensure!(funds(&t, &acc)? == before, "a refused emission at the boundary changed balances");
                        let h = guard(|| t.get_main_chain().get_height())?;
                        ensure!(h == boundary, "a refused emission at the boundary changed the height to {h}");
                        cx.label("refused at the boundary");
                        if tries.len() > 1 && q.seed % 4 == 0 {
                            must("flush", || block_on(t.flush()))?;
                            drop(t);
                            ensure!(read(&dir, "SUMMARYOLD")? == oldc && read(&dir, "GASSUMMARYOLD")? == oldg, "a refused emission at the boundary changed the previous epoch's records");
                            t = open_tree(&dir)?;
                        }
                        continue;
                    }
                    Ok(b) => {
                        ensure!(expect, "a block was emitted at the boundary with {} and {} transactions", if ok { "a sufficient nonce" } else { "an insufficient nonce" }, txs.len());
                        let i = b.get_info();
                        ensure!(b.get_type() as u8 == 4, "the block at height {boundary} is not a summary block");
                        ensure!(i.height == boundary, "the summary block has height {}", i.height);
                        ensure!(i.previous_hash == prev && i.pow == n && i.timestamp == ts && i.founder == addr(q.founder), "the summary block has other fields than given");
                        ensure!(Some(i.difficulty) == r::retarget(&li.difficulty, li.timestamp, ts), "the summary block has the wrong difficulty");
                        ensure!(b.get_merkle_root() == commitment(&coins, &gas), "the summary block does not commit to the balances just before it ({} accounts)", coins.len());
                        let raw = must("dump", || b.dump())?;
                        ensure!(must("find_raw_by_height", || t.get_main_chain().find_raw_by_height(&boundary))? == Some(raw), "the summary block is not on the chain");
                        let mut want = before.clone();
                        want.coins.insert(addr(0), r::cycle());
                        let now = funds(&t, &acc)?;
                        if now != want {
                            let d = acc.iter().find(|a| now.coins[*a] != want.coins[*a] || now.gas[*a] != want.gas[*a]).unwrap();
                            return Err(format!("after the boundary account {} has {} coins and {} gas, expected {} and {}", hex::encode(d), now.coins[d], now.gas[d], want.coins[d], want.gas[d]));
                        }
                        break;
                    }
                }
            }
            height = boundary + 1;
            for j in 0..q.after {
                // after the boundary transaction blocks again, and live balances move on
                let last = must("last block", || t.get_main_chain().get_last_block())?.ok_or("no last block")?;
                let d = last.get_info().difficulty;
                if r::leading_zero_bits(&d) > MINE_MAX {
                    break;
                }
                let lts = last.get_info().timestamp;
                let n = r::mine(&must("hash", || last.hash())?, &d, &[], q.seed as u64, true);
                ensure!(emit_main(&mut t, &n, &addr(1), &[], add_gap(lts, 601))?.is_err(), "a second block without transactions was emitted after the boundary");
                let n = r::mine(&must("hash", || last.hash())?, &d, &[[6; 32]], q.seed as u64, true);
                match emit_main(&mut t, &n, &addr(1), &[[6; 32]], add_gap(lts, 601))? {
                    Ok(b) => ensure!(b.get_type() as u8 == 2, "the block after the boundary is not a transaction block"),
                    Err(e) => return Err(format!("the block after the boundary was refused: {}", e.lines().next().unwrap_or(""))),
                }
                height += U256::one();
                must("set_amount", || t.set_amount(&addr(8), U256::from(j)))?;
                must("add_gas", || t.add_gas(&addr(8), U256::from(1)))?;
            }
            // the previous epoch's records, and everything else, on disk
            must("flush", || block_on(t.flush()))?;
            drop(t);
            ensure!(read(&dir, "SUMMARYOLD")? == coins, "the previous epoch's coin records are not those just before boundary {} of this tree", k + 1);
            ensure!(read(&dir, "GASSUMMARYOLD")? == gas, "the previous epoch's gas records are not those just before boundary {} of this tree", k + 1);
            let mut wantc = coins.clone();
            wantc.insert(addr(0).to_vec(), r::enc_u256(&r::cycle()));
            let (mut nowc, mut nowg, mut wantg) = (read(&dir, "SUMMARY")?, read(&dir, "GASSUMMARY")?, gas.clone());
            for m in [&mut nowc, &mut nowg, &mut wantc, &mut wantg] {
                m.remove(&addr(8)[..]);
            }
            ensure!(nowc == wantc, "coin records other than the root's changed at the boundary");
            ensure!(nowg == wantg, "gas records changed at the boundary");
            t = open_tree(&dir)?;
            cx.units += 1;
        }
        Ok(())
    }
}
