//! Helpers around the library under test.
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use std::future::Future;
use std::path::Path;
use std::time::{Duration, Instant};

use crate::engine::op;

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().max_blocking_threads(2).enable_all().build().unwrap()
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime = rt();
    }
    RT.with(|r| r.block_on(f))
}

/// sled releases its directory lock from a background thread, so a reopen right after a drop may have to wait.
fn retry<T>(what: &str, mut f: impl FnMut() -> Result<Result<T, String>, String>) -> Result<T, String> {
    let t = Instant::now();
    loop {
        match f()? {
            Ok(v) => return Ok(v),
            Err(e) if e.contains("could not acquire lock") && t.elapsed() < Duration::from_secs(30) => {
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(e) => return Err(format!("{what} failed: {}", e.lines().take(8).collect::<Vec<_>>().join(" | "))),
        }
    }
}

pub fn open_tree(p: &Path) -> Result<BlockChainTree, String> {
    let s = p.to_str().unwrap().to_string();
    retry("opening the tree", || op("opening the tree", || BlockChainTree::new(&s)))
}
pub fn open_main(p: &Path) -> Result<MainChain, String> {
    let s = p.to_str().unwrap().to_string();
    retry("opening the main chain", || op("opening the main chain", || MainChain::new(&s)))
}
pub fn open_deriv(p: &Path, owner: &str, anchor: &[u8; 32]) -> Result<DerivativeChain, String> {
    let s = p.to_str().unwrap().to_string();
    retry("opening a derivative chain", || op("opening a derivative chain", || DerivativeChain::new(&s, owner, anchor)))
}
pub fn tree_deriv(t: &mut BlockChainTree, owner: &[u8; 33]) -> Result<DerivativeChain, String> {
    retry("opening a derivative chain", || op("opening a derivative chain", || t.get_derivative_chain(owner)))
}
pub fn open_sled(p: &Path) -> Result<sled::Db, String> {
    retry("opening a store", || op("opening a store", || sled::open(p)))
}

/// Makes the chain at `root` (closed, flushed, at height `from`) continue at height `to`, by rewriting the
/// height recorded in its configuration file. Used to reach epoch boundaries and very large heights.
pub fn fast_forward(config: &Path, from: primitive_types::U256, to: primitive_types::U256) -> Result<(), String> {
    let mut data = std::fs::read(config).map_err(|e| format!("HARNESS config {}: {e}", config.display()))?;
    let pat = crate::refmodel::be32(&from);
    let new = crate::refmodel::be32(&to);
    let pos = data.windows(32).position(|w| w == pat).ok_or("HARNESS recorded height not found in the configuration file")?;
    data[pos..pos + 32].copy_from_slice(&new);
    std::fs::write(config, data).map_err(|e| format!("HARNESS {e}"))
}

pub fn main_config(root: &Path) -> std::path::PathBuf {
    root.join("MAIN").join("Chain.config")
}
