//! Merkle Patricia tries of a world, from their definition: whole or pruned,
//! as the node types of the code under test or in the wire format.
use std::collections::{BTreeMap, BTreeSet};

use ethereum_types::{H256, U256};
use keccak_hash::keccak;
use mpt_trie::partial_trie::{HashedPartialTrie, Node};
use vh_evm::block::int;
use vh_evm::model::{hex_prefix, nib, reference, rlp_list, rlp_str};
use vh_evm::refevm::{b32, Acct, World};

pub type Nibs = Vec<u8>;

pub fn nibbles(b: &[u8]) -> Nibs {
    b.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}
pub fn path_of(x: &[u8]) -> Nibs {
    nibbles(&keccak(x).0)
}
pub fn slot_path(s: U256) -> Nibs {
    path_of(&b32(s))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Code {
    None,
    Hash(H256),
    Bytes(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct AcctNode {
    pub nonce: u64,
    pub balance: U256,
    pub code: Code,
    pub storage: T,
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// The integer of a storage slot, without leading zeros.
    Slot(Vec<u8>),
    Acct(Box<AcctNode>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Empty,
    Hash(H256),
    Leaf(Nibs, V),
    Ext(Nibs, Box<T>),
    Branch(Vec<T>),
}

impl V {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            V::Slot(v) => rlp_str(v),
            V::Acct(a) => {
                let code = match &a.code {
                    Code::None => keccak([]),
                    Code::Hash(h) => *h,
                    Code::Bytes(b) => keccak(b),
                };
                rlp_list(&[int(a.nonce.into()), int(a.balance), rlp_str(&a.storage.hash().0), rlp_str(&code.0)])
            }
        }
    }
}

fn build(items: &[(Nibs, V)]) -> T {
    match items {
        [] => T::Empty,
        [(k, v)] => T::Leaf(k.clone(), v.clone()),
        _ => {
            let (a, z) = (&items[0].0, &items[items.len() - 1].0);
            let common = a.iter().zip(z).take_while(|(x, y)| x == y).count();
            if common > 0 {
                let cut: Vec<_> = items.iter().map(|(k, v)| (k[common..].to_vec(), v.clone())).collect();
                return T::Ext(a[..common].to_vec(), Box::new(build(&cut)));
            }
            T::Branch(
                (0..16u8)
                    .map(|i| build(&items.iter().filter(|(k, _)| k[0] == i).map(|(k, v)| (k[1..].to_vec(), v.clone())).collect::<Vec<_>>()))
                    .collect(),
            )
        }
    }
}
pub fn storage_tree(s: &BTreeMap<U256, U256>) -> T {
    let mut v: Vec<_> = s
        .iter()
        .map(|(k, x)| {
            let b = b32(*x);
            (slot_path(*k), V::Slot(b[32 - (x.bits() + 7) / 8..].to_vec()))
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    build(&v)
}
pub fn state_tree(w: &World) -> T {
    let mut v: Vec<_> = w
        .iter()
        .map(|(a, x)| {
            let code = if x.code.is_empty() { Code::None } else { Code::Bytes(x.code.to_vec()) };
            (path_of(&a.0), V::Acct(Box::new(AcctNode { nonce: x.nonce, balance: x.balance, code, storage: storage_tree(&x.storage) })))
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    build(&v)
}

impl T {
    fn rlp(&self) -> Vec<u8> {
        match self {
            T::Empty => vec![0x80],
            T::Hash(_) => panic!("hash node"),
            T::Leaf(k, v) => rlp_list(&[rlp_str(&hex_prefix(k, true)), rlp_str(&v.bytes())]),
            T::Ext(k, c) => rlp_list(&[rlp_str(&hex_prefix(k, false)), c.reference()]),
            T::Branch(cs) => {
                let mut v: Vec<_> = cs.iter().map(|c| c.reference()).collect();
                v.push(vec![0x80]);
                rlp_list(&v)
            }
        }
    }
    fn reference(&self) -> Vec<u8> {
        match self {
            T::Hash(h) => rlp_str(&h.0),
            _ => reference(&self.rlp()),
        }
    }
    pub fn hash(&self) -> H256 {
        match self {
            T::Hash(h) => *h,
            _ => keccak(self.rlp()),
        }
    }
    fn hide(&self) -> T {
        match self {
            T::Empty | T::Hash(_) => self.clone(),
            _ if self.rlp().len() < 32 => self.clone(),
            _ => T::Hash(self.hash()),
        }
    }
    /// Keeps the nodes on the way to `keys`; with `near`, also the nodes beside
    /// them (which removals may need).
    pub fn prune(&self, keys: &[&[u8]], near: bool) -> T {
        if keys.is_empty() {
            return self.hide();
        }
        match self {
            T::Ext(k, c) => {
                let sub: Vec<&[u8]> = keys.iter().filter_map(|x| x.strip_prefix(&k[..])).collect();
                T::Ext(k.clone(), Box::new(c.prune(&sub, near)))
            }
            T::Branch(cs) => T::Branch(
                cs.iter()
                    .enumerate()
                    .map(|(i, c)| {
                        let sub: Vec<&[u8]> = keys.iter().filter(|k| k[0] as usize == i).map(|k| &k[1..]).collect();
                        if sub.is_empty() && near {
                            c.shallow()
                        } else {
                            c.prune(&sub, near)
                        }
                    })
                    .collect(),
            ),
            _ => self.clone(),
        }
    }
    /// Only the node itself.
    fn shallow(&self) -> T {
        match self {
            T::Leaf(k, V::Acct(a)) => T::Leaf(k.clone(), V::Acct(Box::new(AcctNode { storage: a.storage.hide(), ..(**a).clone() }))),
            T::Ext(k, c) => T::Ext(k.clone(), Box::new(c.hide())),
            T::Branch(_) => self.hide(),
            _ => self.clone(),
        }
    }
    /// Changes each account leaf.
    pub fn each(&mut self, at: &mut Nibs, f: &mut dyn FnMut(&[u8], &mut AcctNode)) {
        let n = at.len();
        match self {
            T::Leaf(k, V::Acct(a)) => {
                at.extend(&*k);
                f(at, a);
            }
            T::Ext(k, c) => {
                at.extend(&*k);
                c.each(at, f);
            }
            T::Branch(cs) => {
                for (i, c) in cs.iter_mut().enumerate() {
                    at.push(i as u8);
                    c.each(at, f);
                    at.pop();
                }
            }
            _ => {}
        }
        at.truncate(n);
    }
    pub fn leaves(&self) -> Vec<(Nibs, V)> {
        fn go(t: &T, at: &mut Nibs, out: &mut Vec<(Nibs, V)>) {
            let n = at.len();
            match t {
                T::Leaf(k, v) => {
                    at.extend(k);
                    out.push((at.clone(), v.clone()));
                }
                T::Ext(k, c) => {
                    at.extend(k);
                    go(c, at, out);
                }
                T::Branch(cs) => {
                    for (i, c) in cs.iter().enumerate() {
                        at.push(i as u8);
                        go(c, at, out);
                        at.pop();
                    }
                }
                _ => {}
            }
            at.truncate(n);
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    pub fn hashes(&self) -> usize {
        match self {
            T::Hash(_) => 1,
            T::Ext(_, c) => c.hashes(),
            T::Branch(cs) => cs.iter().map(|c| c.hashes()).sum(),
            T::Leaf(_, V::Acct(a)) => a.storage.hashes(),
            _ => 0,
        }
    }
    pub fn mpt(&self) -> HashedPartialTrie {
        HashedPartialTrie::from(match self {
            T::Empty => Node::Empty,
            T::Hash(h) => Node::Hash(*h),
            T::Leaf(k, v) => Node::Leaf { nibbles: nib(k), value: v.bytes() },
            T::Ext(k, c) => Node::Extension { nibbles: nib(k), child: std::sync::Arc::new(Box::new(c.mpt())) },
            T::Branch(cs) => Node::Branch { children: std::array::from_fn(|i| std::sync::Arc::new(Box::new(cs[i].mpt()))), value: vec![] },
        })
    }
}

// ------------------------------------------------------------ wire format
pub fn cbor_head(major: u8, n: u64) -> Vec<u8> {
    let m = major << 5;
    match n {
        0..=23 => vec![m | n as u8],
        24..=0xff => vec![m | 24, n as u8],
        0x100..=0xffff => [vec![m | 25], (n as u16).to_be_bytes().to_vec()].concat(),
        0x1_0000..=0xffff_ffff => [vec![m | 26], (n as u32).to_be_bytes().to_vec()].concat(),
        _ => [vec![m | 27], n.to_be_bytes().to_vec()].concat(),
    }
}
pub fn cbor_bytes(b: &[u8]) -> Vec<u8> {
    [cbor_head(2, b.len() as u64), b.to_vec()].concat()
}
/// `style` picks among the ways to write a key that mean the same.
pub fn wire_key(k: &[u8], style: &mut dyn FnMut() -> bool) -> Vec<u8> {
    if k.len() == 1 && style() {
        return cbor_bytes(&[k[0]]);
    }
    let mut v = vec![(k.len() % 2) as u8 | if style() { 2 } else { 0 }];
    for p in k.chunks(2) {
        v.push(p[0] << 4 | p.get(1).copied().unwrap_or(0));
    }
    cbor_bytes(&v)
}
/// The instructions, in order.
pub fn wire(t: &T, style: &mut dyn FnMut() -> bool, out: &mut Vec<Vec<u8>>) {
    match t {
        T::Empty => out.push(vec![6]),
        T::Hash(h) => out.push([vec![3], h.0.to_vec()].concat()),
        T::Leaf(k, V::Slot(v)) => out.push([vec![0], wire_key(k, style), cbor_bytes(v)].concat()),
        T::Leaf(k, V::Acct(a)) => {
            let mut flags = 0;
            match &a.code {
                Code::None => {}
                Code::Hash(h) => {
                    flags |= 1;
                    out.push([vec![3], h.0.to_vec()].concat());
                }
                Code::Bytes(b) => {
                    flags |= 1;
                    out.push([vec![4], cbor_bytes(b)].concat());
                }
            }
            if a.storage != T::Empty || style() {
                flags |= 2;
                wire(&a.storage, style, out);
            }
            let mut tail = vec![];
            if a.nonce != 0 || style() {
                flags |= 4;
                tail.extend(cbor_head(0, a.nonce));
            }
            if !a.balance.is_zero() || style() {
                flags |= 8;
                let b = b32(a.balance);
                let z = if style() { 32 - (a.balance.bits() + 7) / 8 } else { 0 };
                tail.extend(cbor_bytes(&b[z..]));
            }
            if flags & 1 != 0 {
                tail.extend(cbor_head(0, if let Code::Bytes(b) = &a.code { b.len() as u64 } else { 1 }));
            }
            out.push([vec![5], wire_key(k, style), vec![flags], tail].concat());
        }
        T::Ext(k, c) => {
            wire(c, style, out);
            out.push([vec![1], wire_key(k, style)].concat());
        }
        T::Branch(cs) => {
            let mut mask = 0u64;
            for (i, c) in cs.iter().enumerate() {
                if *c != T::Empty {
                    mask |= 1 << i;
                    wire(c, style, out);
                }
            }
            out.push([vec![2], cbor_head(0, mask)].concat());
        }
    }
}
/// Keys of accounts and of their slots, to keep.
#[derive(Clone, Default, Debug)]
pub struct Keep {
    pub accounts: BTreeMap<Nibs, BTreeSet<Nibs>>,
}
impl Keep {
    pub fn prune(&self, w: &T, near: bool) -> T {
        let keys: Vec<&[u8]> = self.accounts.keys().map(|k| &k[..]).collect();
        let mut t = w.prune(&keys, near);
        t.each(&mut vec![], &mut |path, a| {
            let slots: Vec<&[u8]> = self.accounts.get(path).into_iter().flatten().map(|x| &x[..]).collect();
            a.storage = if slots.is_empty() { a.storage.hide() } else { a.storage.prune(&slots, near) };
        });
        t
    }
}
pub fn acct_of(w: &World, a: &ethereum_types::Address) -> Acct {
    w.get(a).cloned().unwrap_or_default()
}
