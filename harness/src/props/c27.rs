use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use crate::util::*;
use blockchaintree::block::{self, Block};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use primitive_types::U256;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;

pub struct C27;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    derivative: bool,
    /// blocks already there
    start: u8,
    /// per thread: for each append, the offset of its height from the height just read
    writers: Vec<Vec<i8>>,
    readers: u8,
    /// transaction hashes per block: larger blocks take longer to write
    size: u16,
    /// a thread flushes meanwhile
    flusher: bool,
    /// close and open at the end
    reopen: bool,
    /// how many times one more thread tries to emit a block through the tree
    #[serde(default)]
    emits: u8,
}

#[derive(Clone)]
enum Any {
    M(MainChain),
    D(DerivativeChain),
}
impl Any {
    fn height(&self) -> u64 {
        match self {
            Any::M(c) => c.get_height().low_u64(),
            Any::D(c) => c.get_height().low_u64(),
        }
    }
    fn by_height(&self, h: u64) -> Result<Option<Vec<u8>>, String> {
        match self {
            Any::M(c) => must("find_raw_by_height", || c.find_raw_by_height(&h.into())),
            Any::D(c) => must("find_raw_by_height", || c.find_raw_by_height(&h.into())),
        }
    }
    fn by_hash(&self, h: &r::H) -> Result<Option<Vec<u8>>, String> {
        match self {
            Any::M(c) => must("find_raw_by_hash", || c.find_raw_by_hash(h)),
            Any::D(c) => must("find_raw_by_hash", || c.find_raw_by_hash(h)),
        }
    }
    /// Whether the append succeeded, and the bytes of the block.
    fn append(&self, h: u64, who: u8, n: u32, size: u16) -> Result<(bool, Vec<u8>), String> {
        let mut pow = [0u8; 32];
        pow[0] = who;
        pow[1..5].copy_from_slice(&n.to_be_bytes());
        let i = block::BasicInfo::new(n as u64, pow, [3; 32], U256::from(h), r::difficulty_of(1), addr(who));
        match self {
            Any::M(c) => {
                let b = block::TransactionBlock::new(n.into(), i, [4; 32], (0..size.max(1)).map(|k| [k as u8; 32]).collect());
                let raw = must("dump", || b.dump())?;
                Ok((op("add_block", || c.add_block(Arc::new(b)))?.is_ok(), raw))
            }
            Any::D(c) => {
                let b = block::DerivativeBlock { default_info: i };
                let raw = must("dump", || b.dump())?;
                Ok((op("add_block", || c.add_block(&b))?.is_ok(), raw))
            }
        }
    }
    fn flush(&self) -> Result<(), String> {
        let rt = rt();
        match self {
            Any::M(c) => must("flush", || rt.block_on(c.flush())),
            Any::D(c) => must("flush", || rt.block_on(c.flush())),
        }
    }
    /// The height recorded in a raw block.
    fn height_of(&self, raw: &[u8]) -> Result<u64, String> {
        Ok(match self {
            Any::M(_) => must("parse", || block::deserialize_main_chain_block(raw))?.get_info().height.low_u64(),
            Any::D(_) => must("parse", || block::DerivativeBlock::parse(&raw[1..]))?.get_info().height.low_u64(),
        })
    }
    fn info_of(&self, raw: &[u8]) -> Result<block::BasicInfo, String> {
        Ok(match self {
            Any::M(_) => must("parse", || block::deserialize_main_chain_block(raw))?.get_info().clone(),
            Any::D(_) => must("parse", || block::DerivativeBlock::parse(&raw[1..]))?.get_info().clone(),
        })
    }
    fn last(&self) -> Result<Option<Vec<u8>>, String> {
        match self {
            Any::M(c) => must("get_last_raw_block", || c.get_last_raw_block()),
            Any::D(c) => must("get_last_raw_block", || c.get_last_raw_block()),
        }
    }
}

fn reader(c: &Any, stop: &AtomicBool) -> Result<u64, String> {
    let mut seen = 0;
    let mut reads = 0;
    let mut known: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    loop {
        let end = stop.load(Ordering::SeqCst);
        let h = c.height();
        ensure!(h >= seen, "a reader saw the height go from {seen} to {h}");
        // everything new, and one old block
        let old = if seen > 0 { Some((reads as u64 * 7) % seen) } else { None };
        for k in (seen..h).rev().chain(old) {
            let raw = c.by_height(k)?.ok_or_else(|| format!("a reader saw height {h} but no block at height {k}"))?;
            ensure!(c.height_of(&raw)? == k, "a reader found a block of another height at height {k}");
            let by = c.by_hash(&r::sha(&raw))?;
            ensure!(by.as_ref() == Some(&raw), "a reader found the block at height {k} by height but not under its hash");
            if let Some(x) = known.get(&k) {
                ensure!(*x == raw, "a reader saw the block at height {k} change");
            }
            known.insert(k, raw);
        }
        let last = c.last()?;
        ensure!(h == 0 || last.is_some(), "a reader saw height {h} but no last block");
        if let Some(l) = last {
            ensure!(c.height_of(&l)? + 1 >= h, "a reader saw height {h} and then a last block of height {}", c.height_of(&l)?);
        }
        seen = h;
        reads += 1;
        if end {
            return Ok(reads);
        }
        if reads % 3 == 0 {
            std::thread::yield_now();
        }
    }
}

/// Tries to emit a block on top of the last one seen; the height and bytes of what was emitted.
fn emit(t: &mut BlockChainTree, h: &Any, anchor: &r::H, owner: &Addr, k: u8) -> Result<Option<(u64, bool, Vec<u8>)>, String> {
    let (hash, diff, ts) = match h.last()? {
        Some(raw) => {
            let i = h.info_of(&raw)?;
            (r::sha(&raw), i.difficulty, i.timestamp)
        }
        None => (*anchor, r::difficulty_of(1), 0),
    };
    // later than any other block, so that the difficulty stays low
    let ts = ts.saturating_add(700);
    let txs: Vec<r::H> = if matches!(h, Any::M(_)) { vec![[k; 32]] } else { vec![] };
    let pow = r::mine(&hash, &diff, &txs, k as u64, true);
    let b = match h {
        Any::M(_) => emit_main(t, &pow, &addr(5), &txs, ts)?,
        Any::D(_) => emit_deriv(t, &pow, owner, ts)?,
    };
    Ok(match b {
        Ok(b) => Some((b.get_info().height.low_u64(), true, must("dump", || b.dump())?)),
        Err(_) => None,
    })
}

impl Property for C27 {
    type Case = Case;
    const ID: &'static str = "C27";
    fn rule() -> &'static str {
        "2..4 writer threads, started together, each making 1..25 appends at (or one beside) the height it just read, through clones and separately obtained handles of one main or derivative chain, with 0..2 readers following the chain, optionally a flushing thread and one that emits blocks through the tree; winners per height, gaps, lookups and every reader observation checked, and that emitted blocks name the block below; non-trivial: at least one append lost its height to another thread"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(3_200, 64_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["the schedules are those the operating system gives to threads released by a spin barrier on a machine with more runnable threads than cores"]
    }
    fn replay_times() -> u32 {
        40
    }
    fn max_shrink_iters() -> u32 {
        300
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let off = prop_oneof![12 => Just(0i8), 1 => Just(1i8), 1 => Just(-1i8)];
        (
            any::<bool>(),
            0u8..6,
            proptest::collection::vec(proptest::collection::vec(off, 1..25), 2..=4),
            0u8..=2,
            prop_oneof![3 => 1u16..4, 1 => 1u16..200],
            prop::bool::weighted(0.25),
            prop::bool::weighted(0.25),
            prop_oneof![2 => Just(0u8), 1 => 1u8..20],
        )
            .prop_map(|(derivative, start, writers, readers, size, flusher, reopen, emits)| Case { derivative, start, writers, readers, size, flusher, reopen, emits })
            .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let dir = cx.dir();
        let mut t = open_tree(&dir)?;
        let owner = addr(5);
        let n = c.writers.len();
        let mut handles = vec![];
        for i in 0..n + 2 {
            handles.push(if c.derivative {
                Any::D(if i % 2 == 0 { tree_deriv(&mut t, &owner)? } else { must("get_derivative_chain", || t.get_derivative_chain(&owner))?.clone() })
            } else {
                Any::M(if i % 2 == 0 { t.get_main_chain() } else { t.get_main_chain().clone() })
            });
        }
        let one = handles[0].clone();
        let mut expected: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
        for i in 0..c.start {
            let h = one.height();
            let (ok, raw) = one.append(h, 7, i as u32, c.size)?;
            ensure!(ok, "an append at the chain height was refused");
            expected.insert(h, raw);
        }
        let h0 = one.height();
        let total = n + c.readers as usize + c.flusher as usize + (c.emits > 0) as usize;
        let anchor = t.get_main_chain().get_last_raw_block().ok().flatten().map(|b| r::sha(&b)).unwrap_or_default();
        let ready = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let gate = || {
            ready.fetch_add(1, Ordering::SeqCst);
            while ready.load(Ordering::SeqCst) < total {
                std::hint::spin_loop();
            }
        };
        type W = Vec<(u64, bool, Vec<u8>)>;
        let (outs, reads): (Vec<Result<W, String>>, Vec<Result<u64, String>>) = std::thread::scope(|s| {
            let ws: Vec<_> = c
                .writers
                .iter()
                .enumerate()
                .map(|(w, offs)| {
                    let h = handles[w].clone();
                    let gate = &gate;
                    s.spawn(move || -> Result<W, String> {
                        gate();
                        let mut v = vec![];
                        for (k, off) in offs.iter().enumerate() {
                            let at = (h.height() as i64 + *off as i64).max(0) as u64;
                            match guard(|| h.append(at, w as u8 + 1, k as u32, c.size)) {
                                Ok(Ok((ok, raw))) => {
                                    if ok {
                                        // its own block is there at once
                                        let got = guard(|| h.by_height(at))??;
                                        ensure!(got.as_ref() == Some(&raw), "a block just appended is not found at its height {at}");
                                        let got = guard(|| h.by_hash(&r::sha(&raw)))??;
                                        ensure!(got.as_ref() == Some(&raw), "a block just appended is not found under its hash");
                                    }
                                    v.push((at, ok, raw))
                                }
                                Ok(Err(e)) | Err(e) => return Err(e),
                            }
                        }
                        Ok(v)
                    })
                })
                .collect();
            let rs: Vec<_> = (0..c.readers)
                .map(|_| {
                    let h = handles[n].clone();
                    let (gate, stop) = (&gate, &stop);
                    s.spawn(move || {
                        gate();
                        guard(|| reader(&h, stop)).unwrap_or_else(Err)
                    })
                })
                .collect();
            let fl = c.flusher.then(|| {
                let h = handles[n + 1].clone();
                let (gate, stop) = (&gate, &stop);
                s.spawn(move || -> Result<(), String> {
                    gate();
                    while !stop.load(Ordering::SeqCst) {
                        guard(|| h.flush())??;
                    }
                    Ok(())
                })
            });
            let em = (c.emits > 0).then(|| {
                let h = handles[n + 1].clone();
                let (gate, t) = (&gate, &mut t);
                s.spawn(move || -> Result<W, String> {
                    gate();
                    let mut v = vec![];
                    for k in 0..c.emits {
                        v.extend(guard(|| emit(t, &h, &anchor, &owner, k))??);
                    }
                    Ok(v)
                })
            });
            let mut outs: Vec<_> = ws.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a writer died".into()))).collect();
            outs.extend(em.map(|h| h.join().unwrap_or_else(|_| Err("an emitter died".into()))));
            stop.store(true, Ordering::SeqCst);
            let mut reads: Vec<_> = rs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reader died".into()))).collect();
            if let Some(f) = fl {
                reads.push(f.join().unwrap_or_else(|_| Err("a flusher died".into())).map(|_| 0));
            }
            (outs, reads)
        });
        let mut lost = false;
        let emitted = if c.emits > 0 { n } else { usize::MAX };
        let mut links = vec![];
        for (w, o) in outs.into_iter().enumerate() {
            for (h, ok, raw) in o? {
                if ok {
                    if w == emitted {
                        links.push((h, one.info_of(&raw)?.previous_hash));
                    }
                    ensure!(expected.insert(h, raw).is_none(), "two appends succeeded for height {h}");
                } else {
                    lost = true;
                }
            }
        }
        for (h, prev) in links {
            let want = match h.checked_sub(1) {
                Some(b) => one.by_height(b)?.map(|b| r::sha(&b)),
                None => Some(anchor),
            };
            ensure!(Some(prev) == want, "a block emitted at height {h} while others appended does not name the block below it");
            cx.label_n("emitted meanwhile", 1);
        }
        for x in reads {
            cx.units += x?;
        }
        let end = one.height();
        for h in h0..end {
            ensure!(expected.contains_key(&h), "the chain has height {end} but no append succeeded for height {h}");
        }
        ensure!(expected.keys().next_back().is_none_or(|k| *k < end), "an append succeeded for a height the chain of height {end} does not have");
        let look = |c: &Any| -> Result<(), String> {
            for (h, raw) in &expected {
                ensure!(c.by_height(*h)?.as_ref() == Some(raw), "the block appended at height {h} is not found there");
                ensure!(c.by_hash(&r::sha(raw))?.as_ref() == Some(raw), "the block appended at height {h} is not found under its hash");
            }
            Ok(())
        };
        for h in &handles {
            ensure!(h.height() == end, "handles to one chain disagree about its height");
        }
        look(&one)?;
        if lost {
            cx.nontrivial();
        }
        cx.label(if c.derivative { "derivative" } else { "main" });
        if c.flusher {
            cx.label("with flushes");
        }
        if c.reopen {
            one.flush()?;
            drop(handles);
            drop(one);
            drop(t);
            let mut t = open_tree(&dir)?;
            let again = if c.derivative { Any::D(tree_deriv(&mut t, &owner)?) } else { Any::M(t.get_main_chain()) };
            ensure!(again.height() == end, "after a flush and reopen the height {end} became {}", again.height());
            look(&again)?;
            cx.label("reopened");
        }
        Ok(())
    }
}
