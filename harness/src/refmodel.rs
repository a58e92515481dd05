//! Independent reference definitions, written from the property text.
use primitive_types::U256;
use sha2::{Digest, Sha256};

pub type H = [u8; 32];

pub fn sha(data: &[u8]) -> H {
    Sha256::digest(data).into()
}

pub fn be32(n: &U256) -> H {
    let mut b = [0u8; 32];
    n.to_big_endian(&mut b);
    b
}

/// Length byte followed by the big-endian bytes without leading zeros.
pub fn enc_u256(n: &U256) -> Vec<u8> {
    let b = be32(n);
    let skip = b.iter().position(|x| *x != 0).unwrap_or(32);
    let mut v = vec![(32 - skip) as u8];
    v.extend_from_slice(&b[skip..]);
    v
}

fn and(a: &H, b: &H) -> H {
    let mut r = [0u8; 32];
    for i in 0..32 {
        r[i] = a[i] & b[i];
    }
    r
}

fn subtree(leaves: &[H], width: usize) -> H {
    if width == 1 {
        return leaves.first().copied().unwrap_or([0xff; 32]);
    }
    let half = width / 2;
    let (l, r) = if leaves.len() > half { leaves.split_at(half) } else { (leaves, &[][..]) };
    sha(&and(&subtree(l, half), &subtree(r, half)))
}

pub fn merkle_width(n: usize) -> usize {
    let mut w = 1;
    while w <= n {
        w *= 2;
    }
    w
}

pub fn merkle_root(items: &[H]) -> H {
    subtree(items, merkle_width(items.len()))
}

pub fn leading_zero_bits(data: &[u8]) -> u32 {
    let mut n = 0;
    for byte in data {
        for bit in (0..8).rev() {
            if byte >> bit & 1 == 1 {
                return n;
            }
            n += 1;
        }
    }
    n
}

pub fn pow_hash_root(prev: &H, root: &H, nonce: &[u8]) -> H {
    let mut h = Sha256::new();
    h.update(prev);
    h.update(root);
    h.update(nonce);
    h.finalize().into()
}

pub fn pow_ok(prev: &H, difficulty: &H, txs: &[H], nonce: &[u8]) -> bool {
    leading_zero_bits(&pow_hash_root(prev, &merkle_root(txs), nonce)) >= leading_zero_bits(difficulty)
}

/// Difficulty with `zeros` leading zero bits followed by ones.
pub fn difficulty_of(zeros: u32) -> H {
    let mut d = [0u8; 32];
    for i in zeros..256 {
        d[(i / 8) as usize] |= 0x80 >> (i % 8);
    }
    d
}

/// Some(zeros) if the difficulty is one the chain can reach: zeros >= 1 zero bits, then only ones.
pub fn canonical(d: &H) -> Option<u32> {
    let z = leading_zero_bits(d);
    (z >= 1 && *d == difficulty_of(z)).then_some(z)
}

pub fn retarget_zeros(zeros: u32, prev_ts: u64, ts: u64) -> u32 {
    let gap = ts as i128 - prev_ts as i128;
    if gap < 600 {
        (zeros + 1).min(256)
    } else if gap > 600 {
        zeros.saturating_sub(1).max(1)
    } else {
        zeros
    }
}

pub fn retarget(d: &H, prev_ts: u64, ts: u64) -> Option<H> {
    canonical(d).map(|z| difficulty_of(retarget_zeros(z, prev_ts, ts)))
}

pub fn fee_of(d: &H) -> U256 {
    U256::from(62500u64) * U256::from(leading_zero_bits(d))
}

/// First nonce (counting from `start`) that satisfies, or with `want=false` fails, the difficulty.
pub fn mine(prev: &H, difficulty: &H, txs: &[H], start: u64, want: bool) -> H {
    let root = merkle_root(txs);
    let need = leading_zero_bits(difficulty);
    let mut n = start;
    loop {
        let mut nonce = [0u8; 32];
        nonce[24..].copy_from_slice(&n.to_be_bytes());
        nonce[0] = (start >> 7) as u8;
        let ok = leading_zero_bits(&pow_hash_root(prev, &root, &nonce)) >= need;
        if ok == want {
            return nonce;
        }
        n = n.wrapping_add(1);
    }
}

pub fn genesis_root() -> H {
    // one leaf: root address | decimal cycle amount | 0
    let mut v = hex::decode("031b84c5567b126440995d3ed5aaba0565d71e1834604819ff9c17f5e9d5dd078f").unwrap();
    v.push(b'|');
    v.extend_from_slice(CYCLE.as_bytes());
    v.push(b'|');
    v.push(b'0');
    merkle_root(&[sha(&v)])
}

/// 25000000000000000 * 2000 * 1000000 + 10^18 * 10000
pub const CYCLE: &str = "50010000000000000000000000";

pub fn cycle() -> U256 {
    U256::from_dec_str(CYCLE).unwrap()
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn shapes() {
        assert_eq!(difficulty_of(1)[0], 0x7f);
        assert_eq!(difficulty_of(9)[..3], [0, 0x7f, 0xff]);
        assert_eq!(difficulty_of(256), [0; 32]);
        assert_eq!(merkle_width(0), 1);
        assert_eq!(merkle_width(1), 2);
        assert_eq!(merkle_width(4), 8);
        assert_eq!(merkle_root(&[]), [0xff; 32]);
    }
}
