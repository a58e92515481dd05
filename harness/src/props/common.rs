//! Shared by the stateful properties: nonces, snapshots, accounts.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use blockchaintree::block::BlockArc;
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

pub type Addr = [u8; 33];

/// Largest number of leading zero bits for which nonces are searched.
pub const MINE_MAX: u32 = 11;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pow {
    Good(u32),
    Bad(u32),
    Any(B),
    /// satisfies the difficulty for an empty transaction list instead of the given one
    NoTxs(u32),
    /// satisfies the difficulty over a hash of the given kind: 0 zero hash, 1 Merkle root of the transactions, 2 grandparent
    Over(u8, u32),
    /// exactly one bit short
    Short(u32),
}
pub fn pow(good: u32) -> BoxedStrategy<Pow> {
    prop_oneof![
        good => any::<u32>().prop_map(Pow::Good),
        1 => any::<u32>().prop_map(Pow::Bad),
        1 => arr(32).prop_map(Pow::Any),
        1 => any::<u32>().prop_map(Pow::NoTxs),
        1 => (0u8..3, any::<u32>()).prop_map(|(k, n)| Pow::Over(k, n)),
        1 => any::<u32>().prop_map(Pow::Short),
    ]
    .boxed()
}

/// The nonce and whether the definition accepts it.
pub fn nonce(p: &Pow, prev: &r::H, prevprev: &r::H, diff: &r::H, txs: &[r::H]) -> (r::H, bool) {
    let z = r::leading_zero_bits(diff);
    let can = z <= MINE_MAX;
    let n = match p {
        Pow::Good(s) if can => r::mine(prev, diff, txs, *s as u64, true),
        Pow::Bad(s) if z > 0 => r::mine(prev, diff, txs, *s as u64, false),
        Pow::NoTxs(s) if can => r::mine(prev, diff, &[], *s as u64, true),
        Pow::Over(k, s) if can => {
            let h = match k {
                0 => [0; 32],
                1 => r::merkle_root(txs),
                _ => *prevprev,
            };
            r::mine(&h, diff, txs, *s as u64, true)
        }
        Pow::Short(s) if z > 0 && z <= MINE_MAX + 1 => {
            // as many leading zero bits as possible below the requirement
            let root = r::merkle_root(txs);
            let mut k = *s as u64;
            loop {
                let n = r::mine(prev, &r::difficulty_of(z - 1), txs, k, true);
                if r::leading_zero_bits(&r::pow_hash_root(prev, &root, &n)) == z - 1 {
                    break n;
                }
                k = k.wrapping_add(1 << 20).wrapping_mul(3);
            }
        }
        Pow::Any(b) => b.a(),
        Pow::Good(s) | Pow::Bad(s) | Pow::NoTxs(s) | Pow::Over(_, s) | Pow::Short(s) => {
            let mut n = [0u8; 32];
            n[..4].copy_from_slice(&s.to_be_bytes());
            n
        }
    };
    (n, r::pow_ok(prev, diff, txs, &n))
}

/// Gap to use: eases when the difficulty gets too high to mine.
pub fn eased(gap: i64, zeros: u32) -> i64 {
    if zeros >= MINE_MAX && gap < 600 {
        601 + (gap.unsigned_abs() % 1000) as i64
    } else {
        gap
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Funds {
    pub coins: BTreeMap<Addr, U256>,
    pub gas: BTreeMap<Addr, U256>,
}
pub fn funds(t: &BlockChainTree, accounts: &[Addr]) -> Result<Funds, String> {
    let mut f = Funds { coins: BTreeMap::new(), gas: BTreeMap::new() };
    for a in accounts {
        f.coins.insert(*a, must("get_amount", || t.get_amount(a))?);
        f.gas.insert(*a, must("get_gas", || t.get_gas(a))?);
    }
    Ok(f)
}
pub fn accounts(n: u8) -> Vec<Addr> {
    (0..n).map(addr).collect()
}

/// All blocks from `from` up to the height, as stored.
pub fn main_blocks(c: &MainChain, from: u64) -> Result<Vec<Vec<u8>>, String> {
    let h = guard(|| c.get_height())?;
    ensure!(h.bits() <= 40, "the height is {h}");
    let mut v = vec![];
    for i in from..h.low_u64() {
        match must("find_raw_by_height", || c.find_raw_by_height(&U256::from(i)))? {
            Some(b) => v.push(b),
            None => return Err(format!("no block at height {i} although the height is {h}")),
        }
    }
    Ok(v)
}
/// Heights a chain may have reached: a little below powers of 256 and of two, and any.
pub fn tall_height() -> BoxedStrategy<N> {
    let top = U256::MAX - U256::from(100_000);
    prop_oneof![
        3 => proptest::sample::select(vec![8u32, 8, 16, 32, 64, 128]),
        2 => (3u32..256),
    ]
    .prop_map(|k| U256::one() << k)
    .prop_flat_map(|p| (0u64..6).prop_map(move |d| p - d))
    
    .boxed()
    .prop_map(move |h| N(h.clamp(U256::from(2), top)))
    .boxed()
}
pub fn deriv_blocks(c: &DerivativeChain) -> Result<Vec<Vec<u8>>, String> {
    let h = guard(|| c.get_height())?;
    ensure!(h.bits() <= 40, "the height of a derivative chain is {h}");
    let mut v = vec![];
    for i in 0..h.low_u64() {
        match must("find_raw_by_height", || c.find_raw_by_height(&U256::from(i)))? {
            Some(b) => v.push(b),
            None => return Err(format!("no block at height {i} of a derivative chain although its height is {h}")),
        }
    }
    Ok(v)
}

pub fn emit_main(t: &mut BlockChainTree, pow: &r::H, founder: &Addr, txs: &[r::H], ts: u64) -> Result<Result<BlockArc, String>, String> {
    op("emitting a main block", || crate::util::block_on(t.emmit_new_main_block(pow, founder, txs, ts)))
}
pub fn emit_deriv(t: &mut BlockChainTree, pow: &r::H, founder: &Addr, ts: u64) -> Result<Result<BlockArc, String>, String> {
    op("emitting a derivative block", || crate::util::block_on(t.emmit_new_derivative_block(pow, founder, ts)))
}

/// A generated stored transaction that needs no signature.
pub fn unsigned_tx(i: u16) -> blockchaintree::transaction::Transaction {
    let d = expand(i as u64, 64, 0);
    blockchaintree::transaction::Transaction::new_signed(
        addr((i % 9) as u8),
        addr((i / 9 % 9) as u8),
        i as u64,
        U256::from(i),
        match i {
            60.. => Some(expand(i as u64, [5_000, 40_000, 70_000, 300_000, 1_200_000][(i - 60) as usize % 5], (i % 4) as u8)),
            _ if i % 3 == 0 => None,
            _ => Some(expand(i as u64, i as usize % 50, 0)),
        },
        d.try_into().unwrap(),
    )
}
/// Hashes of the transactions of `unsigned_tx`.
pub fn unsigned_hashes() -> &'static [r::H] {
    static HS: OnceLock<Vec<r::H>> = OnceLock::new();
    HS.get_or_init(|| (0..65).map(|i| blockchaintree::transaction::Transactionable::hash(&unsigned_tx(i))).collect())
}
/// Numbers for `unsigned_tx`, the last five (large payloads) rarely.
pub fn some_tx() -> BoxedStrategy<u16> {
    prop_oneof![50 => 0u16..60, 1 => 60u16..65].boxed()
}

/// Runs the lists of operations in one thread each, started together; their results.
pub fn together<O: Sync, R: Send>(threads: &[Vec<O>], f: impl Fn(&O) -> R + Sync) -> Vec<Vec<R>> {
    let n = threads.len();
    let ready = AtomicUsize::new(0);
    std::thread::scope(|s| {
        let hs: Vec<_> = threads
            .iter()
            .map(|ops| {
                let (f, ready) = (&f, &ready);
                s.spawn(move || {
                    ready.fetch_add(1, Ordering::SeqCst);
                    while ready.load(Ordering::SeqCst) < n {
                        std::hint::spin_loop();
                    }
                    ops.iter().map(f).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// States reachable by some interleaving of the threads that explains every outcome.
/// None if there are more candidates than are kept.
pub fn explain<S: Clone + PartialEq, O, R>(start: &S, threads: &[Vec<O>], outs: &[Vec<R>], effect: impl Fn(&S, &O, &R) -> Option<S>) -> Option<Vec<S>> {
    let dims: Vec<usize> = threads.iter().map(|t| t.len() + 1).collect();
    let total: usize = dims.iter().product();
    // several states per position: not all operations commute
    let mut at: Vec<Vec<S>> = vec![vec![]; total];
    at[0].push(start.clone());
    let mut pos = vec![0usize; dims.len()];
    for i in 0..total {
        // mixed-radix positions in increasing order: every predecessor has a smaller index
        let mut x = i;
        for (d, p) in pos.iter_mut().enumerate() {
            *p = x % dims[d];
            x /= dims[d];
        }
        if i + 1 == total {
            break;
        }
        let here = std::mem::take(&mut at[i]);
        for b in here {
            let mut stride = 1;
            for d in 0..dims.len() {
                if pos[d] + 1 < dims[d] {
                    if let Some(n) = effect(&b, &threads[d][pos[d]], &outs[d][pos[d]]) {
                        let t = &mut at[i + stride];
                        if !t.contains(&n) {
                            if t.len() == 512 {
                                return None;
                            }
                            t.push(n);
                        }
                    }
                }
                stride *= dims[d];
            }
        }
    }
    at.pop()
}
