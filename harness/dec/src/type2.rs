//! The wire format for sparse Merkle trees.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use alloy::primitives::{Address, U256};
use evm_arithmetization::world::{Type2World, World as _};
use smt_trie::keys::*;
use vh_core::*;
use vh_evm::gen::pick;

use crate::smt_model::*;
use crate::tree::cbor_head;

/// One leaf: where it is, and what its instruction says.
#[derive(Clone, Debug)]
pub struct L {
    pub key: K,
    pub kind: u8,
    pub address: Address,
    pub slot: U256,
    pub value: U256,
}
fn num(c: &mut Case, v: U256) -> Vec<u8> {
    let b = v.to_be_bytes::<32>();
    let z = b.iter().take_while(|x| **x == 0).count().min(31);
    let from = if c.chance(0.8) { z } else { c.below(z + 1) };
    cbor_bytes(&b[from..])
}
pub fn cbor_bytes(b: &[u8]) -> Vec<u8> {
    [cbor_head(2, b.len() as u64), b.to_vec()].concat()
}
pub fn leaf(kind: u8, address: Address, slot: U256, value: U256) -> L {
    let k = match kind {
        0 => key_balance(address),
        1 => key_nonce(address),
        2 => key_code(address),
        3 => key_storage(address, slot),
        _ => key_code_length(address),
    };
    L { key: unkey(&k), kind, address, slot, value }
}
pub fn leaves(c: &mut Case) -> Vec<L> {
    let mut out = vec![];
    for _ in 0..pick(c, &[1usize, 1, 2, 5, 20, 60]) {
        let a = Address::from(c.rng.gen::<[u8; 20]>());
        for kind in [0u8, 1, 2, 4] {
            if c.chance(0.7) {
                out.push(leaf(kind, a, U256::ZERO, value(c)));
            }
        }
        let mut seen = BTreeSet::new();
        for _ in 0..pick(c, &[0usize, 0, 1, 3, 12]) {
            let s = match c.below(3) {
                0 => U256::from(c.below(4)),
                _ => value(c),
            };
            if seen.insert(s) {
                out.push(leaf(3, a, s, value(c)));
            }
        }
    }
    out
}
fn instr(c: &mut Case, l: &L) -> Vec<u8> {
    let mut v = vec![7, l.kind];
    v.extend(cbor_bytes(&l.address.0[..]));
    if l.kind == 3 {
        v.extend(num(c, l.slot));
    }
    v.extend(num(c, l.value));
    v
}
fn hash_bytes(h: H) -> Vec<u8> {
    h.iter().rev().flat_map(|x| x.to_be_bytes()).collect()
}
/// Pre-order; hides nodes with probability `p`.
fn emit(c: &mut Case, ls: &[L], depth: usize, p: f64, out: &mut Vec<Vec<u8>>, shown: &mut Vec<L>) {
    let kvs: Vec<_> = ls.iter().map(|l| (l.key, l.value)).collect();
    if !ls.is_empty() && depth > 0 && c.chance(p) {
        c.count("hidden nodes", 1);
        out.push([vec![3], hash_bytes(root_of(&kvs, depth))].concat());
        return;
    }
    match ls {
        [] => unreachable!(),
        [l] => {
            out.push(instr(c, l));
            shown.push(l.clone());
        }
        _ => {
            let (r, l): (Vec<L>, Vec<L>) = ls.iter().cloned().partition(|l| bit(&l.key, depth));
            out.push(vec![2, !l.is_empty() as u8 | (!r.is_empty() as u8) << 1]);
            for s in [l, r] {
                if !s.is_empty() {
                    emit(c, &s, depth + 1, p, out, shown);
                }
            }
        }
    }
}
fn real(b: &[u8]) -> Option<(Type2World, BTreeSet<Vec<u8>>)> {
    catch_unwind(AssertUnwindSafe(|| trace_decoder::verif_hooks::type2(b).ok())).ok().flatten()
}
pub fn wire2(c: &mut Case) -> R {
    let ls = leaves(c);
    if ls.is_empty() {
        return Ok(());
    }
    let p = pick(c, &[0.0, 0.05, 0.3]);
    let (mut v, mut shown) = (vec![], vec![]);
    emit(c, &ls, 0, p, &mut v, &mut shown);
    let mut codes = BTreeSet::new();
    let mut plain = v.clone();
    for _ in 0..c.below(4) {
        let n = pick(c, &[1usize, 23, 24, 300]);
        let x: Vec<u8> = (0..n).map(|_| c.rng.gen()).collect();
        plain.insert(c.below(plain.len() + 1), [vec![4], cbor_bytes(&x)].concat());
        codes.insert(x);
    }
    let b = [vec![c.below(2) as u8], plain.concat()].concat();
    c.log(|| format!("{ls:?}\n{}", hex::encode(&b)));
    c.eval();
    let Some((mut w, have)) = real(&b) else { return Err("a tree that is right is refused".into()) };
    check_eq!(have, codes, "codes");
    let all: Vec<_> = ls.iter().map(|l| (l.key, l.value)).collect();
    check_eq!(w.root().0.to_vec(), hash_bytes(root_of(&all, 0)), "root");
    let smt = w.as_smt();
    for l in &shown {
        c.eval();
        check_eq!(smt.get(key(&l.key)), l.value, "{l:?}");
        let a = ethereum_types::Address::from(l.address.0 .0);
        check!(w.contains(a).unwrap(), "account {a:?} is not there");
        if l.kind == 3 {
            check_eq!(w.load_int(a, ethereum_types::U256(l.slot.into_limbs())).unwrap().0, l.value.into_limbs(), "{l:?}");
        }
        c.count("type 2 fields", 1);
    }
    c.distinct(b.clone());
    c.sample(|| format!("{} leaves shown of {}, root 0x{}", shown.len(), ls.len(), hex::encode(hash_bytes(root_of(&all, 0)))));
    // what is not of the format
    for _ in 0..8 {
        let mut m = v.clone();
        let i = c.below(m.len());
        let j = (0..m.len()).filter(|j| m[*j][0] == 7).nth(c.below(shown.len().max(1)));
        let what = match (c.below(10), j) {
            (0, _) => {
                m.push(pick(c, &[vec![3; 33], vec![7, 0, 0x54, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0x41, 1]]));
                "left over"
            }
            (1, _) if m.len() > 1 => {
                m.pop();
                "a child is missing"
            }
            (2, Some(j)) if m.len() > 1 => {
                // twice the same field, where another node was
                let k = (0..m.len()).filter(|k| *k != j && m[*k][0] != 2).nth(c.below(3));
                let Some(k) = k else { continue };
                m[k] = m[j].clone();
                if m[k][1] != 3 {
                    // with another value
                    m[k].truncate(2 + 21);
                    m[k].extend([0x41, 1 + c.below(250) as u8]);
                }
                "the same field twice"
            }
            (3, Some(j)) => {
                m[j][1] = 5 + c.below(251) as u8;
                "an unknown kind of leaf"
            }
            (4, Some(j)) => {
                let n = pick(c, &[1usize, 19, 21, 32]);
                m[j] = [vec![7, 0], cbor_bytes(&vec![1; n]), vec![0x41, 1]].concat();
                "an address of the wrong length"
            }
            (5, Some(j)) => {
                let n = pick(c, &[33usize, 34, 64, 300]);
                m[j] = if c.chance(0.5) { [vec![7, 1], cbor_bytes(&[1; 20]), cbor_bytes(&vec![c.below(2) as u8; n])].concat() } else { [vec![7, 3], cbor_bytes(&[1; 20]), cbor_bytes(&vec![0; n]), vec![0x41, 1]].concat() };
                "a number of more than 32 bytes"
            }
            (6, Some(j)) => {
                m[j] = [vec![7, 0], cbor_bytes(&[1; 20]), vec![0x40]].concat();
                "no value"
            }
            (7, _) => {
                let Some(k) = (0..m.len()).find(|k| m[*k][0] == 2) else { continue };
                m[k][1] = pick(c, &[0u8, 4, 5, 7, 23]);
                "a mask of more than two bits, or none"
            }
            (8, _) => {
                m[i] = pick(c, &[vec![6], vec![0xbb], vec![8], vec![1, 0x41, 1], vec![0, 0x41, 1, 0x41, 1], vec![5, 0x41, 1, 0]]);
                "an instruction of the other format"
            }
            _ => {
                m = vec![];
                "nothing"
            }
        };
        let head = if c.chance(0.05) { 2 } else { 0 };
        let b = [vec![head], m.concat()].concat();
        c.eval();
        c.count("refused", 1);
        if real(&b).is_some() {
            c.log(|| hex::encode(&b));
            return Err(format!("accepted: {what}"));
        }
    }
    Ok(())
}
