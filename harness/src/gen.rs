//! Generators shared by the properties.
use primitive_types::U256;
use proptest::prelude::*;
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeSet;
use std::fmt;
use std::sync::OnceLock;

/// 256-bit number, decimal in replay files.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct N(pub U256);
impl fmt::Debug for N {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Serialize for N {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for N {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        U256::from_dec_str(&s).map(N).map_err(|e| de::Error::custom(format!("{e:?}")))
    }
}

/// Byte string, hexadecimal in replay files.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct B(pub Vec<u8>);
impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "x{}", hex::encode(&self.0))
    }
}
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(&self.0))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        hex::decode(&s).map(B).map_err(de::Error::custom)
    }
}
impl B {
    pub fn a<const K: usize>(&self) -> [u8; K] {
        let mut r = [0u8; K];
        let n = self.0.len().min(K);
        r[..n].copy_from_slice(&self.0[..n]);
        r
    }
}

pub struct Dict {
    pub ints: Vec<U256>,
    pub small: Vec<u64>, // those that fit in u64
}

/// Integer literals of the code under test, with neighbours.
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut set: BTreeSet<U256> = BTreeSet::new();
        let mut files = vec![];
        let repo = std::env::var("VPH_REPO").unwrap_or("/repo".into());
        collect(&std::path::Path::new(&repo).join("src"), &mut files);
        files.sort();
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap_or_default();
            scan(&text, &mut set);
        }
        let mut all = BTreeSet::new();
        for v in &set {
            all.insert(*v);
            all.insert(v.overflowing_add(U256::one()).0);
            if !v.is_zero() {
                all.insert(*v - 1);
            }
        }
        let ints: Vec<U256> = all.into_iter().collect();
        let small = ints.iter().filter(|v| v.bits() <= 64).map(|v| v.low_u64()).collect();
        Dict { ints, small }
    })
}

fn collect(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let q = e.path();
            if q.is_dir() {
                collect(&q, out);
            } else if q.extension().is_some_and(|x| x == "rs") {
                out.push(q);
            }
        }
    }
}

fn scan(text: &str, set: &mut BTreeSet<U256>) {
    for line in text.lines() {
        let line = line.trim_start();
        if line.starts_with("//") {
            continue;
        }
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let prev_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if b[i].is_ascii_digit() && !prev_word {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let mut t: String = line[i..j].replace('_', "");
                for suf in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"] {
                    if !t.starts_with("0x") || suf.starts_with('u') || suf.starts_with('i') {
                        if let Some(s) = t.strip_suffix(suf) {
                            t = s.to_string();
                            break;
                        }
                    }
                }
                let v = if let Some(h) = t.strip_prefix("0x") {
                    (h.len() <= 64).then(|| U256::from_str_radix(h, 16).ok()).flatten()
                } else if let Some(bin) = t.strip_prefix("0b") {
                    u64::from_str_radix(bin, 2).ok().map(U256::from)
                } else {
                    U256::from_dec_str(&t).ok()
                };
                if let Some(v) = v {
                    set.insert(v);
                }
                i = j;
            } else {
                i += 1;
            }
        }
    }
}

fn dict_small_upto(max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = dict().small.iter().copied().filter(|x| *x <= max).collect();
    if v.is_empty() {
        v.push(0);
    }
    v
}

/// 256-bit values: every byte length, powers of two and neighbours, interior zeros, extremes, dictionary.
pub fn num() -> BoxedStrategy<N> {
    prop_oneof![
        3 => (0u64..300).prop_map(|x| N(U256::from(x))),
        4 => (1usize..=32, any::<[u8; 32]>(), any::<u32>()).prop_map(|(n, mut b, mask)| {
            // n significant bytes; bytes whose mask bit pair is set are zeroed (interior zeros)
            for (i, x) in b.iter_mut().enumerate() {
                if i < 32 - n || (mask >> (i % 16) & 0x10001) == 0x10001 { *x = 0; }
            }
            N(U256::from_big_endian(&b))
        }),
        3 => (0usize..=256, -2i32..=2).prop_map(|(k, d)| {
            let base = if k == 256 { U256::MAX } else { U256::one() << k };
            N(if d < 0 { base.overflowing_sub(U256::from((-d) as u32)).0 } else { base.overflowing_add(U256::from(d as u32)).0 })
        }),
        1 => Just(N(U256::zero())),
        1 => Just(N(U256::MAX)),
        2 => any::<u64>().prop_map(|x| N(U256::from(x))),
        2 => proptest::sample::select(dict().ints.clone()).prop_map(N),
        2 => any::<[u8; 32]>().prop_map(|b| N(U256::from_big_endian(&b))),
    ]
    .boxed()
}

/// Amounts that stay small enough for long sums, mixed with a few large ones.
pub fn amount() -> BoxedStrategy<N> {
    prop_oneof![
        4 => (0u64..1000).prop_map(|x| N(U256::from(x))),
        2 => any::<u64>().prop_map(|x| N(U256::from(x))),
        2 => any::<u128>().prop_map(|x| N(U256::from(x))),
        2 => (0usize..200).prop_map(|k| N(U256::one() << k)),
        1 => proptest::sample::select(dict().ints.iter().copied().filter(|x| x.bits() < 200).collect::<Vec<_>>()).prop_map(N),
        1 => any::<[u8; 24]>().prop_map(|b| N(U256::from_big_endian(&b))),
    ]
    .boxed()
}

pub fn u64v() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => 0u64..2000,
        2 => any::<u64>(),
        1 => (0u32..64, -1i64..=1).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
        1 => Just(u64::MAX),
        1 => proptest::sample::select(dict().small.clone()),
        1 => 1_597_000_000u64..1_900_000_000,
    ]
    .boxed()
}

/// Lengths up to max, biased to small values, powers of two and dictionary values.
pub fn len(max: usize) -> BoxedStrategy<usize> {
    let pows: Vec<usize> = (0..)
        .map(|k| 1usize << k)
        .take_while(|p| *p <= max.max(1))
        .flat_map(|p| [p.saturating_sub(1), p, p + 1])
        .filter(|p| *p <= max)
        .collect();
    let d: Vec<usize> = dict_small_upto(max as u64).into_iter().map(|x| x as usize).collect();
    prop_oneof![
        4 => 0usize..=max.min(8),
        3 => 0usize..=max.min(40),
        2 => proptest::sample::select(pows),
        1 => proptest::sample::select(d),
        2 => 0usize..=max,
    ]
    .boxed()
}

/// Fixed-size byte strings: random, constant, sparse, dense.
pub fn arr(n: usize) -> BoxedStrategy<B> {
    prop_oneof![
        5 => proptest::collection::vec(any::<u8>(), n).prop_map(B),
        1 => any::<u8>().prop_map(move |x| B(vec![x; n])),
        1 => (0..n, any::<u8>(), any::<bool>()).prop_map(move |(i, x, inv)| {
            let mut v = vec![if inv { 0xff } else { 0 }; n];
            v[i] = x;
            B(v)
        }),
        1 => Just(B(vec![0; n])),
        1 => Just(B(vec![0xff; n])),
    ]
    .boxed()
}

pub fn bytes(max: usize) -> BoxedStrategy<B> {
    (len(max), any::<u64>(), 0u8..4)
        .prop_flat_map(|(n, seed, kind)| {
            if n <= 64 {
                proptest::collection::vec(any::<u8>(), n).prop_map(B).boxed()
            } else {
                Just(B(expand(seed, n, kind))).boxed()
            }
        })
        .boxed()
}

/// Deterministic filler of n bytes.
pub fn expand(seed: u64, n: usize, kind: u8) -> Vec<u8> {
    let mut s = seed;
    let mut next = move || {
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    };
    let mut v = Vec::with_capacity(n + 8);
    match kind {
        0 => {
            while v.len() < n {
                v.extend_from_slice(&next().to_le_bytes());
            }
        }
        1 => {
            let x = next() as u8;
            v.resize(n, x);
        }
        2 => {
            // repetitive text with variations
            while v.len() < n {
                let r = next();
                let word = [b'a' + (r % 26) as u8; 7];
                v.extend_from_slice(&word[..(1 + (r >> 8) as usize % 7)]);
                v.push(b' ');
            }
        }
        _ => {
            // sparse
            while v.len() < n {
                let r = next();
                v.extend(std::iter::repeat_n(0u8, (r % 31) as usize));
                v.push((r >> 32) as u8);
            }
        }
    }
    v.truncate(n);
    v
}

/// A list of hashes: `len` derived ones, with some positions overridden and some duplicated.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Hashes {
    pub len: usize,
    pub seed: u64,
    pub set: Vec<(u16, B)>,
    pub dup: Vec<(u16, u16)>,
}
impl Hashes {
    pub fn list(&self) -> Vec<[u8; 32]> {
        let mut v: Vec<[u8; 32]> = (0..self.len)
            .map(|i| {
                let b = expand(self.seed ^ (i as u64).wrapping_mul(0xd6e8feb86659fd93), 32, 0);
                b.try_into().unwrap()
            })
            .collect();
        if self.len > 0 {
            for (i, b) in &self.set {
                v[*i as usize % self.len] = b.a();
            }
            for (i, j) in &self.dup {
                v[*i as usize % self.len] = v[*j as usize % self.len];
            }
        }
        v
    }
}
pub fn hashes(max: usize) -> BoxedStrategy<Hashes> {
    (
        len(max),
        any::<u64>(),
        prop_oneof![2 => Just(vec![]).boxed(), 1 => proptest::collection::vec((any::<u16>(), arr(32)), 0..4).boxed()],
        prop_oneof![3 => Just(vec![]).boxed(), 1 => proptest::collection::vec((any::<u16>(), any::<u16>()), 0..3).boxed()],
    )
        .prop_map(|(len, seed, set, dup)| Hashes { len, seed, set, dup })
        .boxed()
}
pub fn hashes_nonempty(max: usize) -> BoxedStrategy<Hashes> {
    hashes(max)
        .prop_map(|mut h| {
            h.len = h.len.max(1);
            h
        })
        .boxed()
}

/// Lists of up to `max`, one in `every` times with up to `rare`, one in `every_huge` times with 33,000 to 45,000 hashes
/// (more than a megabyte).
pub fn hashes_rare(max: usize, rare: usize, every: u32, every_huge: u32) -> BoxedStrategy<Hashes> {
    let long = (hashes(rare), max..rare, any::<bool>()).prop_map(|(mut h, n, any)| {
        if any {
            h.len = n;
        }
        h
    });
    let huge = (hashes(4), 33_000usize..45_000).prop_map(|(mut h, n)| {
        h.len = n;
        h
    });
    let e = every_huge.max(every);
    prop_oneof![e - e / every - 1 => hashes(max), e / every => long, 1 => huge].boxed()
}

/// Time gaps around the block time, as signed offsets.
pub fn gap() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => 595i64..=605,
        2 => 0i64..600,
        3 => 601i64..5000,
        1 => -2000i64..0,
        1 => Just(600i64),
        1 => (0u32..40).prop_map(|k| 1i64 << k),
        1 => proptest::sample::select(dict_small_upto(1 << 40)).prop_map(|x| x as i64),
    ]
    .boxed()
}

pub fn add_gap(ts: u64, gap: i64) -> u64 {
    if gap >= 0 {
        ts.saturating_add(gap as u64)
    } else {
        ts.saturating_sub(gap.unsigned_abs())
    }
}

/// A handful of distinct account addresses, selected by index.
pub fn addr(i: u8) -> [u8; 33] {
    match i {
        0 => blockchaintree::static_values::ROOT_PUBLIC_ADDRESS,
        1 => [0; 33],
        2 => [0xff; 33],
        3 => {
            // differs from the root account in the last byte only
            let mut a = blockchaintree::static_values::ROOT_PUBLIC_ADDRESS;
            a[32] ^= 1;
            a
        }
        9 => {
            // differs from account 5 in the parity byte only
            let mut a = addr(5);
            a[0] ^= 1;
            a
        }
        n => {
            let v = expand(n as u64, 33, 0);
            let mut a: [u8; 33] = v.try_into().unwrap();
            a[0] = 2 + (n & 1);
            a
        }
    }
}
