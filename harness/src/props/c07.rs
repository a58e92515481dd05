use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refmodel as r;
use blockchaintree::merkletree::MerkleTree;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C07;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// another hash with the item's proof: random, one bit changed, or a constant
    Leaf(B),
    LeafBit(u8, u8),
    /// a different item of the same list with this item's proof
    OtherItem(u16),
    PathBit(u8, u8, u8),
    PathReplace(u8, B),
    PathSwap(u8, u8),
    PathDrop(u8),
    PathDup(u8),
    PathCut(u8),
    PathAdd(B),
    WithRoot,
    RootBit(u8, u8),
    RootOf(Hashes),
    // list edits: compare roots
    Replace(u16, B),
    BitOf(u16, u8, u8),
    Append(B),
    Remove(u16),
    Swap(u16, u16),
    Rotate(u16),
    Truncate(u16),
    Reverse,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    items: Hashes,
    at: u16,
    attack: Attack,
}

fn attack() -> BoxedStrategy<Attack> {
    use Attack::*;
    prop_oneof![
        arr(32).prop_map(Leaf),
        (0u8..32, 0u8..8).prop_map(|(a, b)| LeafBit(a, b)),
        any::<u16>().prop_map(OtherItem),
        (any::<u8>(), 0u8..32, 0u8..8).prop_map(|(a, b, c)| PathBit(a, b, c)),
        (any::<u8>(), arr(32)).prop_map(|(a, b)| PathReplace(a, b)),
        (any::<u8>(), any::<u8>()).prop_map(|(a, b)| PathSwap(a, b)),
        any::<u8>().prop_map(PathDrop),
        any::<u8>().prop_map(PathDup),
        any::<u8>().prop_map(PathCut),
        arr(32).prop_map(PathAdd),
        Just(WithRoot),
        (0u8..32, 0u8..8).prop_map(|(a, b)| RootBit(a, b)),
        hashes(20).prop_map(RootOf),
        (any::<u16>(), arr(32)).prop_map(|(a, b)| Replace(a, b)),
        (any::<u16>(), 0u8..32, 0u8..8).prop_map(|(a, b, c)| BitOf(a, b, c)),
        arr(32).prop_map(Append),
        any::<u16>().prop_map(Remove),
        (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Swap(a, b)),
        any::<u16>().prop_map(Rotate),
        any::<u16>().prop_map(Truncate),
        Just(Reverse),
    ]
    .boxed()
}

/// What the documented node function (SHA-256 of the AND) makes of a path.
fn chain(leaf: &[u8; 32], path: &[[u8; 32]]) -> [u8; 32] {
    let mut cur = *leaf;
    for p in path {
        let mut a = [0u8; 32];
        for i in 0..32 {
            a[i] = cur[i] & p[i];
        }
        cur = r::sha(&a);
    }
    cur
}

const K: &str = "K1";

impl Property for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    fn rule() -> &'static str {
        "a list of 1..300 hashes and one attack: another leaf, a changed/dropped/duplicated/swapped/added path element, another root, or an edit of the list; an acceptance is a violation unless it is the listed weakness K1 (the SHA-256-of-AND node function itself maps both inputs to the same value); non-trivial: the attack changes the input"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_200_000, 24_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let items = prop_oneof![6 => hashes_nonempty(20), 2 => hashes_nonempty(300)];
        (items, any::<u16>(), attack()).prop_map(|(items, at, attack)| Case { items, at, attack }).boxed()
    }
    fn witnesses() -> Vec<(&'static str, Case)> {
        // [0x0f.., 0xf0..]: their AND is zero, so any leaf disjoint from the sibling is "proved" too
        let items = Hashes { len: 2, seed: 0, set: vec![(0, B(vec![0x0f; 32])), (1, B(vec![0xf0; 32]))], dup: vec![] };
        vec![
            (K, Case { items: items.clone(), at: 0, attack: Attack::Leaf(B(vec![0x07; 32])) }),
            (K, Case { items: items.clone(), at: 0, attack: Attack::Swap(0, 1) }),
            (K, Case { items, at: 0, attack: Attack::Append(B(vec![0xff; 32])) }),
        ]
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        use Attack::*;
        let list = c.items.list();
        let n = list.len();
        let at = c.at as usize % n;
        let name = format!("{:?}", c.attack);
        cx.label(name.split('(').next().unwrap().to_string());
        let tree = guard(|| MerkleTree::build_tree(&list))?;
        let root = *tree.get_root();
        let edited = match &c.attack {
            Replace(i, b) => {
                let mut l = list.clone();
                l[*i as usize % n] = b.a();
                Some(l)
            }
            BitOf(i, b, k) => {
                let mut l = list.clone();
                l[*i as usize % n][*b as usize] ^= 1 << k;
                Some(l)
            }
            Append(b) => {
                let mut l = list.clone();
                l.push(b.a());
                Some(l)
            }
            Remove(i) => {
                let mut l = list.clone();
                l.remove(*i as usize % n);
                Some(l)
            }
            Swap(i, j) => {
                let mut l = list.clone();
                l.swap(*i as usize % n, *j as usize % n);
                Some(l)
            }
            Rotate(k) => {
                let mut l = list.clone();
                l.rotate_left(*k as usize % n);
                Some(l)
            }
            Truncate(k) => {
                let mut l = list.clone();
                l.truncate(*k as usize % (n + 1));
                Some(l)
            }
            Reverse => {
                let mut l = list.clone();
                l.reverse();
                Some(l)
            }
            _ => None,
        };
        if let Some(l) = edited {
            if l == list {
                cx.label("edit without effect");
                return Ok(());
            }
            cx.nontrivial();
            let other = guard(|| *MerkleTree::build_tree(&l).get_root())?;
            if other == root {
                let msg = format!("two different lists ({n} and {} items, edit {}) have the same root", l.len(), sanitize(&name));
                if r::merkle_root(&l) == r::merkle_root(&list) {
                    cx.known(K, &msg)?;
                } else {
                    return Err(msg);
                }
            }
            return Ok(());
        }
        let mut leaf = list[at];
        let full: Vec<[u8; 32]> = guard(|| tree.get_proof(&leaf).into_iter().copied().collect::<Vec<_>>())?;
        let mut path = full[..full.len() - 1].to_vec();
        let orig = (leaf, path.clone(), root);
        let mut against = root;
        let k = path.len();
        match &c.attack {
            Leaf(b) => leaf = b.a(),
            LeafBit(i, b) => leaf[*i as usize] ^= 1 << b,
            OtherItem(i) => leaf = list[*i as usize % n],
            PathBit(i, b, s) => path[*i as usize % k][*b as usize] ^= 1 << s,
            PathReplace(i, b) => path[*i as usize % k] = b.a(),
            PathSwap(i, j) => path.swap(*i as usize % k, *j as usize % k),
            PathDrop(i) => {
                path.remove(*i as usize % k);
            }
            PathDup(i) => {
                let x = path[*i as usize % k];
                path.insert(*i as usize % k, x);
            }
            PathCut(i) => path.truncate(*i as usize % (k + 1)),
            PathAdd(b) => path.push(b.a()),
            WithRoot => path.push(root),
            RootBit(i, b) => against[*i as usize] ^= 1 << b,
            RootOf(h) => against = guard(|| *MerkleTree::build_tree(&h.list()).get_root())?,
            _ => unreachable!(),
        }
        if (leaf, path.clone(), against) == orig {
            cx.label("attack without effect");
            return Ok(());
        }
        cx.nontrivial();
        if path.is_empty() {
            cx.label("empty path");
        }
        let refs: Vec<&[u8; 32]> = path.iter().collect();
        let ok = guard(|| MerkleTree::verify_proof(&leaf, &against, &refs)).map_err(|e| format!("verification of an altered proof ({} elements): {e}", path.len()))?;
        if ok {
            let msg = format!("an altered proof verifies: {} (list of {n}, item {at})", sanitize(&name));
            // the listed weakness: the node function maps the altered input to the very same root
            if !path.is_empty() && chain(&leaf, &path) == against {
                cx.known(K, &msg)?;
            } else {
                return Err(msg);
            }
        }
        ensure!(!ok || !path.is_empty(), "an empty proof verifies");
        Ok(())
    }
}
