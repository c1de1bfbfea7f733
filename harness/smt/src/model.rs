//! The reference: a map, and the root of the sparse Merkle tree over it, from
//! the definition.

use std::collections::BTreeMap;

use alloy::primitives::U256;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::Poseidon;
use smt_trie::smt::Key;
use vh_core::*;

pub const P: u64 = 0xffff_ffff_0000_0001;
pub type K = [u64; 4];
pub type Map = BTreeMap<K, U256>;
pub type H = [u64; 4];
pub const ZERO: H = [0; 4];

pub fn key(k: &K) -> Key {
    Key(k.map(F::from_canonical_u64))
}
pub fn unkey(k: &Key) -> K {
    k.0.map(|x| x.to_canonical_u64())
}
/// Bit `l` of the path: the elements take turns, each from its low bit up.
pub fn bit(k: &K, l: usize) -> bool {
    k[l % 4] >> (l / 4) & 1 == 1
}
pub fn rem(k: &K, depth: usize) -> K {
    let mut r = [0u64; 4];
    for l in depth..256 {
        let used = (0..depth).filter(|x| x % 4 == l % 4).count();
        if bit(k, l) {
            r[l % 4] |= 1 << (l / 4 - used);
        }
    }
    r
}
pub fn lcp(a: &K, b: &K) -> usize {
    (0..256).take_while(|&l| bit(a, l) == bit(b, l)).count()
}
pub fn poseidon(a: H, b: H, cap: u64) -> H {
    let mut s = [F::ZERO; 12];
    for i in 0..4 {
        s[i] = F::from_canonical_u64(a[i]);
        s[4 + i] = F::from_canonical_u64(b[i]);
    }
    s[8] = F::from_canonical_u64(cap);
    let o = F::poseidon(s);
    std::array::from_fn(|i| o[i].to_canonical_u64())
}
pub fn value_hash(v: U256) -> H {
    let l = v.as_limbs();
    let x: [u64; 8] = std::array::from_fn(|i| l[i / 2] >> (32 * (i % 2)) & 0xffff_ffff);
    poseidon(x[..4].try_into().unwrap(), x[4..].try_into().unwrap(), 0)
}
pub fn leaf_hash(k: &K, v: U256, depth: usize) -> H {
    poseidon(rem(k, depth), value_hash(v), 1)
}
pub type Kv = (K, U256);
pub fn root_of(kvs: &[Kv], depth: usize) -> H {
    match kvs {
        [] => ZERO,
        [(k, v)] => leaf_hash(k, *v, depth),
        _ => {
            let (r, l): (Vec<Kv>, Vec<Kv>) = kvs.iter().partition(|(k, _)| bit(k, depth));
            poseidon(root_of(&l, depth + 1), root_of(&r, depth + 1), 0)
        }
    }
}
pub fn kvs(m: &Map) -> Vec<Kv> {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}
pub fn root(m: &Map) -> H {
    root_of(&kvs(m), 0)
}

/// Keys close to each other in the tree, or not.
#[derive(Clone, Copy, Debug)]
pub enum Fam {
    Random,
    /// Only a few low bits of each element are used.
    Dense(u32),
    /// A shared random prefix of this many bits.
    Prefix(usize),
    /// Only a few high bits of each element differ: the paths part at the very end.
    Deep,
}
pub struct Gen {
    fam: Fam,
    base: K,
}
pub fn canon(x: u64) -> u64 {
    if x >= P {
        x - P
    } else {
        x
    }
}
impl Gen {
    pub fn new(c: &mut Case) -> Self {
        let fam = match c.below(8) {
            0 | 1 => Fam::Random,
            2 => Fam::Dense(1),
            3 => Fam::Dense(2),
            4 => Fam::Dense(16),
            5 => Fam::Prefix(c.below(40)),
            6 => Fam::Prefix(40 + c.below(210)),
            _ => Fam::Deep,
        };
        Gen { fam, base: std::array::from_fn(|_| canon(c.rng.gen())) }
    }
    pub fn name(&self) -> String {
        format!("{:?}", self.fam)
    }
    pub fn key(&self, c: &mut Case) -> K {
        let r: K = std::array::from_fn(|_| canon(c.rng.gen()));
        match self.fam {
            Fam::Random => r,
            Fam::Dense(n) => r.map(|x| x & ((1 << n) - 1)),
            Fam::Prefix(n) => {
                let mut k = r;
                for l in 0..n {
                    k[l % 4] = k[l % 4] & !(1 << (l / 4)) | (bit(&self.base, l) as u64) << (l / 4);
                }
                k.map(canon)
            }
            Fam::Deep => std::array::from_fn(|i| canon(self.base[i] ^ (r[i] & 3) << 61)),
        }
    }
}
pub fn value(c: &mut Case) -> U256 {
    let x: [u64; 4] = c.rng.gen();
    match c.below(8) {
        0 => U256::from(1),
        1 => U256::MAX,
        2 => U256::from(1) << c.below(256),
        3 => U256::from(0xffff_ffffu64) << (32 * c.below(8)),
        4 => U256::from(c.rng.gen::<u16>().max(1)),
        _ => U256::from_limbs(x).max(U256::from(1)),
    }
}
