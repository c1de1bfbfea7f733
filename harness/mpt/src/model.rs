//! Reference model: a sorted map from nibble strings to values, its Merkle
//! Patricia root computed straight from the definition, and generators.

use std::collections::BTreeMap;

use ethereum_types::H256;
use keccak_hash::keccak;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{Node, PartialTrie, WrappedNode};
use vh_core::*;

pub type Key = Vec<u8>;
pub type Map = BTreeMap<Key, Vec<u8>>;

pub fn nib(k: &[u8]) -> Nibbles {
    let mut packed = mpt_trie::nibbles::NibblesIntern::zero();
    for &x in k {
        packed = (packed << 4) | mpt_trie::nibbles::NibblesIntern::from(x);
    }
    Nibbles { count: k.len(), packed }
}

pub fn unnib(n: &Nibbles) -> Key {
    (0..n.count).map(|i| ((n.packed >> (4 * (n.count - 1 - i))).low_u64() & 15) as u8).collect()
}

pub fn hex(k: &[u8]) -> String {
    k.iter().map(|x| format!("{x:x}")).collect()
}

// ---- RLP and the trie, by definition ------------------------------------

pub fn rlp_str(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut v = rlp_head(0x80, b.len());
    v.extend_from_slice(b);
    v
}

fn rlp_head(base: u8, len: usize) -> Vec<u8> {
    if len < 56 {
        vec![base + len as u8]
    } else {
        let be: Vec<u8> = len.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
        let mut v = vec![base + 55 + be.len() as u8];
        v.extend(be);
        v
    }
}

pub fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = items.concat();
    let mut v = rlp_head(0xc0, body.len());
    v.extend(body);
    v
}

pub fn hex_prefix(k: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2u8 } else { 0 };
    let mut v = vec![];
    let mut rest = k;
    if k.len() % 2 == 1 {
        v.push(((f + 1) << 4) | k[0]);
        rest = &k[1..];
    } else {
        v.push(f << 4);
    }
    for c in rest.chunks(2) {
        v.push((c[0] << 4) | c[1]);
    }
    v
}

/// How a node is referred to in its parent: its RLP, or the hash of it.
pub fn reference(rlp: &[u8]) -> Vec<u8> {
    if rlp.len() < 32 {
        rlp.to_vec()
    } else {
        rlp_str(keccak(rlp).as_bytes())
    }
}

/// RLP of the node for `items` (sorted, distinct), whose first `at` nibbles are shared.
pub fn spec_rlp(items: &[(&Key, &Vec<u8>)], at: usize) -> Vec<u8> {
    match items {
        [] => vec![0x80],
        [(k, v)] => rlp_list(&[rlp_str(&hex_prefix(&k[at..], true)), rlp_str(v)]),
        _ => {
            let (f, l) = (items[0].0, items[items.len() - 1].0);
            let mut c = 0;
            while at + c < f.len() && at + c < l.len() && f[at + c] == l[at + c] {
                c += 1;
            }
            if c > 0 {
                return rlp_list(&[rlp_str(&hex_prefix(&f[at..at + c], false)), reference(&spec_rlp(items, at + c))]);
            }
            let (mut val, mut rest) = (vec![0x80], items);
            if f.len() == at {
                val = rlp_str(items[0].1);
                rest = &items[1..];
            }
            let mut parts = vec![];
            for n in 0..16u8 {
                let cnt = rest.iter().take_while(|(k, _)| k[at] == n).count();
                parts.push(reference_or_empty(&spec_rlp(&rest[..cnt], at + 1)));
                rest = &rest[cnt..];
            }
            parts.push(val);
            rlp_list(&parts)
        }
    }
}

fn reference_or_empty(rlp: &[u8]) -> Vec<u8> {
    reference(rlp)
}

pub fn spec_root(m: &Map) -> H256 {
    let items: Vec<_> = m.iter().collect();
    keccak(spec_rlp(&items, 0))
}

/// RLP of a (possibly partial) node, by definition; `Err(h)` for a hash node.
pub fn node_rlp<N: PartialTrie>(n: &Node<N>) -> Result<Vec<u8>, H256> {
    Ok(match n {
        Node::Empty => vec![0x80],
        Node::Hash(h) => return Err(*h),
        Node::Leaf { nibbles, value } => rlp_list(&[rlp_str(&hex_prefix(&unnib(nibbles), true)), rlp_str(value)]),
        Node::Extension { nibbles, child } => rlp_list(&[rlp_str(&hex_prefix(&unnib(nibbles), false)), node_ref(child)]),
        Node::Branch { children, value } => {
            let mut p: Vec<Vec<u8>> = children.iter().map(|c| node_ref(c)).collect();
            p.push(rlp_str(value));
            rlp_list(&p)
        }
    })
}

pub fn node_ref<N: PartialTrie>(n: &Node<N>) -> Vec<u8> {
    match node_rlp(n) {
        Ok(r) => reference(&r),
        Err(h) => rlp_str(h.as_bytes()),
    }
}

pub fn node_root<N: PartialTrie>(n: &Node<N>) -> H256 {
    match node_rlp(n) {
        Ok(r) => keccak(r),
        Err(h) => h,
    }
}

pub fn empty<N: PartialTrie>(n: &WrappedNode<N>) -> bool {
    let n: &Node<N> = n;
    matches!(n, Node::Empty)
}

/// Checks that the node structure is canonical (as the trie of its own content).
pub fn canonical<N: PartialTrie>(n: &Node<N>, root: bool) -> R {
    match n {
        Node::Empty => check!(root, "an empty node below the root outside a branch"),
        Node::Hash(_) => {}
        Node::Leaf { .. } => {}
        Node::Extension { nibbles, child } => {
            check!(nibbles.count > 0, "an extension of no nibbles");
            check!(
                { let ch: &Node<N> = child; matches!(ch, Node::Branch { .. } | Node::Hash(_)) },
                "an extension whose child is neither a branch nor a hash node"
            );
            canonical(child, false)?;
        }
        Node::Branch { children, value } => {
            let k = children.iter().filter(|c| !empty(c)).count() + !value.is_empty() as usize;
            check!(k >= 2, "a branch with {k} entries");
            for c in children.iter().filter(|c| !empty(c)) {
                canonical(c, false)?;
            }
        }
    }
    Ok(())
}

// ---- generators -----------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Family {
    /// 64-nibble keys (hashed keys).
    Full,
    /// all keys of one short length.
    Short(usize),
    /// keys such as RLP-encoded indices: of several lengths, none a prefix of another.
    PrefixFree,
    /// any lengths, prefixes of one another included.
    Mixed,
    /// any lengths up to 64, prefixes of one another included.
    MixedLong,
}

impl Family {
    pub fn pick(c: &mut Case) -> Family {
        match c.below(10) {
            0..=2 => Family::Full,
            3 | 4 => Family::Short(1 + c.below(5)),
            5 => Family::PrefixFree,
            6..=8 => Family::Mixed,
            _ => Family::MixedLong,
        }
    }
    pub fn pick_prefix_free(c: &mut Case) -> Family {
        match c.below(6) {
            0..=2 => Family::Full,
            3 | 4 => Family::Short(1 + c.below(6)),
            _ => Family::PrefixFree,
        }
    }
    pub fn prefix_free(&self) -> bool {
        !matches!(self, Family::Mixed | Family::MixedLong)
    }
}

pub struct Gen {
    pub fam: Family,
    pub alphabet: Vec<u8>,
    pub pool: Vec<Key>,
}

impl Gen {
    pub fn new(c: &mut Case, fam: Family) -> Gen {
        let n = *[2, 2, 3, 4, 16, 16].choose(&mut c.rng).unwrap();
        let mut all: Vec<u8> = (0..16).collect();
        all.shuffle(&mut c.rng);
        all.truncate(n);
        Gen { fam, alphabet: all, pool: vec![] }
    }
    fn nibs(&self, c: &mut Case, n: usize) -> Key {
        (0..n).map(|_| *self.alphabet.choose(&mut c.rng).unwrap()).collect()
    }
    /// A key, close to earlier ones more often than not.
    pub fn key(&mut self, c: &mut Case) -> Key {
        if !self.pool.is_empty() && c.chance(0.35) {
            return self.pool.choose(&mut c.rng).unwrap().clone();
        }
        let total = match self.fam {
            Family::Full => 64,
            Family::Short(n) => n,
            Family::PrefixFree => {
                let v = *[0usize, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x101, 0x1ff, 0xfff].choose(&mut c.rng).unwrap() + c.below(3);
                let b = if v == 0 {
                    vec![0x80]
                } else if v < 0x80 {
                    vec![v as u8]
                } else if v < 0x100 {
                    vec![0x81, v as u8]
                } else {
                    vec![0x82, (v >> 8) as u8, v as u8]
                };
                let k: Key = b.iter().flat_map(|b| [b >> 4, b & 15]).collect();
                self.remember(k.clone());
                return k;
            }
            Family::Mixed => c.below(9),
            Family::MixedLong => *[0, 1, 2, 31, 32, 33, 62, 63, 64].choose(&mut c.rng).unwrap(),
        };
        let mut k = vec![];
        if !self.pool.is_empty() && c.chance(0.8) {
            let p = self.pool.choose(&mut c.rng).unwrap();
            let m = if self.fam == Family::Full && c.chance(0.3) { 56 + c.rng.gen_range(0..8) } else { c.rng.gen_range(0..=p.len().min(total)) };
            k.extend_from_slice(&p[..m.min(p.len()).min(total)]);
        }
        let rest = total - k.len();
        k.extend(self.nibs(c, rest));
        self.remember(k.clone());
        k
    }
    fn remember(&mut self, k: Key) {
        if self.pool.len() < 400 {
            self.pool.push(k);
        }
    }
}

pub fn value(c: &mut Case) -> Vec<u8> {
    let n = match c.below(12) {
        0..=2 => 1,
        3 | 4 => 1 + c.below(4),
        5..=7 => 20 + c.below(20),
        8 => *[54usize, 55, 56, 57, 255, 256, 257].choose(&mut c.rng).unwrap(),
        9 => 1 + c.below(300),
        _ => 32,
    };
    let mut v: Vec<u8> = (0..n).map(|_| c.rng.gen()).collect();
    if c.chance(0.2) {
        v[0] = *[0u8, 1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xc0, 0xff].choose(&mut c.rng).unwrap();
    }
    v
}

/// A map of about `n` entries.
pub fn gen_map(c: &mut Case, g: &mut Gen, n: usize) -> Map {
    let mut m = Map::new();
    for _ in 0..n {
        let k = g.key(c);
        let v = value(c);
        m.insert(k, v);
    }
    m
}

pub fn build<T: PartialTrie>(m: &Map) -> R<T> {
    let mut t = T::default();
    for (k, v) in m {
        t.insert(nib(k), v.clone()).map_err(|e| format!("insert into a complete trie failed: {e}"))?;
    }
    Ok(t)
}
