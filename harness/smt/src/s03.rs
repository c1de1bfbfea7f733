//! Key derivation, bytecode hashing, paths and conversions.

use alloy::primitives::{Address, B256, U256};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon::Poseidon;
use smt_trie::bits::Bits;
use smt_trie::smt::Key;
use smt_trie::utils::{hashout2h, hashout2u, key2u};
use smt_trie::{code, keys};
use vh_core::*;

use crate::model::*;

fn perm(s: [u64; 12]) -> H {
    let o = F::poseidon(s.map(F::from_canonical_u64));
    std::array::from_fn(|i| o[i].to_canonical_u64())
}

/// Poseidon of eight elements, with four elements of capacity.
fn derived(addr: &[u8; 20], what: u64, cap: H) -> K {
    let mut s = [0u64; 12];
    // The address as 32-bit limbs, the least significant first.
    for (i, b) in addr.iter().rev().enumerate() {
        s[i / 4] |= (*b as u64) << (8 * (i % 4));
    }
    s[6] = what;
    s[8..].copy_from_slice(&cap);
    perm(s)
}

fn key_cap(slot: U256) -> H {
    let mut s = [0u64; 12];
    for (i, b) in slot.to_le_bytes::<32>().iter().enumerate() {
        s[i / 4] |= (*b as u64) << (8 * (i % 4));
    }
    perm(s)
}

fn derivation(c: &mut Case) -> R {
    let mut a: [u8; 20] = c.rng.gen();
    if c.chance(0.3) {
        let n = c.below(21);
        a[..n].fill(if c.chance(0.5) { 0 } else { 0xff });
    }
    let addr = Address::from(a);
    let zero = perm([0; 12]);
    let slot = match c.below(4) {
        0 => U256::from(c.below(300)),
        1 => U256::from(1) << c.below(256),
        2 => U256::MAX - U256::from(c.below(3)),
        _ => U256::from_limbs(c.rng.gen()),
    };
    let cap = key_cap(slot);
    let got = [
        ("key_balance", unkey(&keys::key_balance(addr)), derived(&a, 0, zero)),
        ("key_nonce", unkey(&keys::key_nonce(addr)), derived(&a, 1, zero)),
        ("key_code", unkey(&keys::key_code(addr)), derived(&a, 2, zero)),
        ("key_storage", unkey(&keys::key_storage(addr, slot)), derived(&a, 3, cap)),
        ("key_code_length", unkey(&keys::key_code_length(addr)), derived(&a, 4, zero)),
    ];
    for (i, (n, x, want)) in got.iter().enumerate() {
        check_eq!(*x, *want, "{n} of {addr}, slot {slot:#x}");
        c.eval();
        c.distinct(x);
        for (n2, y, _) in &got[..i] {
            check!(x != y, "{n} and {n2} of {addr} are the same key");
        }
    }
    // Neighbours have other keys.
    let mut b = a;
    b[c.below(20)] ^= 1 << c.below(8);
    check!(keys::key_balance(Address::from(b)) != keys::key_balance(addr), "two addresses, one key");
    check!(keys::key_storage(Address::from(b), slot) != keys::key_storage(addr, slot), "two addresses, one storage key");
    let t = slot ^ (U256::from(1) << c.below(256));
    check!(keys::key_storage(addr, t) != keys::key_storage(addr, slot), "slots {slot:#x} and {t:#x}, one key");
    c.evals(3);
    c.count("derivation", 1);
    Ok(())
}

fn bytecode(c: &mut Case) -> R {
    let n = match c.below(4) {
        0 => c.below(10),
        1 => (56 * (1 + c.below(4)) + c.below(5)).saturating_sub(3),
        2 => c.below(600),
        _ => c.below(120),
    };
    let mut b: Vec<u8> = (0..n).map(|_| c.rng.gen()).collect();
    if c.chance(0.2) {
        b.fill(*[0u8, 0xff, 1, 0x80].choose(&mut c.rng).unwrap());
    }
    // Pad: one byte 0x01, zeros to a multiple of 56, and the top bit of the last byte.
    let total = (n + 1 + 55) / 56 * 56;
    let at = |i: usize| -> u64 {
        let base = if i < n {
            b[i]
        } else if i == n {
            1
        } else {
            0
        };
        (base | if i + 1 == total { 0x80 } else { 0 }) as u64
    };
    let mut cap = ZERO;
    for block in 0..total / 56 {
        let mut s = [0u64; 12];
        for e in 0..8 {
            for j in 0..7 {
                s[e] |= at(block * 56 + e * 7 + j) << (8 * j);
            }
        }
        s[8..].copy_from_slice(&cap);
        cap = perm(s);
    }
    check_eq!(code::hash_contract_bytecode(b.clone()).elements.map(|x| x.to_canonical_u64()), cap, "hash_contract_bytecode of {n} bytes");
    let mut p = b.clone();
    code::poseidon_pad_byte_vec(&mut p);
    check!(p.iter().enumerate().all(|(i, x)| *x as u64 == at(i)) && p.len() == total, "padding of {n} bytes");
    let mut be = [0u8; 32];
    for i in 0..4 {
        be[32 - 8 * (i + 1)..32 - 8 * i].copy_from_slice(&cap[i].to_be_bytes());
    }
    check_eq!(code::hash_bytecode_h256(&b), B256::from(be), "hash_bytecode_h256 of {n} bytes");
    c.evals(3);
    // Not the hash of anything close.
    let mut q = b.clone();
    match c.below(3) {
        0 => q.push(0),
        1 => q.push(1),
        _ if n > 0 => {
            q[c.rng.gen_range(0..n)] ^= 1 << c.below(8);
        }
        _ => q.push(0x80),
    }
    check!(code::hash_contract_bytecode(q) != code::hash_contract_bytecode(b), "two codes, one hash");
    c.count("code", 1);
    c.distinct((n, cap));
    Ok(())
}

fn paths(c: &mut Case) -> R {
    let g = Gen::new(c);
    let k = g.key(c);
    let k2 = g.key(c);
    let b = key(&k).split();
    check_eq!(b.count, 256, "length of the path");
    for l in 0..256 {
        check_eq!(b.get_bit(l), bit(&k, l), "bit {l} of the path of {k:x?}");
    }
    // Any prefix of the path, with what remains, is the key.
    let n = c.below(257);
    let mut pre = Bits::empty();
    for l in 0..n {
        pre.push_bit(bit(&k, l));
    }
    let joined = Key::join(pre, key(&rem(&k, n)));
    check_eq!(unkey(&joined), k, "join of the first {n} bits and the rest");
    // Paths against lists of bits.
    let l1: Vec<bool> = (0..n).map(|l| bit(&k, l)).collect();
    let m = c.below(257);
    let l2: Vec<bool> = (0..m).map(|l| bit(&k2, l)).collect();
    let mk = |l: &[bool]| l.iter().fold(Bits::empty(), |a, b| a.add_bit(*b));
    let list = |b: &Bits| (0..b.count).map(|i| b.get_bit(i)).collect::<Vec<_>>();
    let (b1, b2) = (mk(&l1), mk(&l2));
    check_eq!(list(&b1), l1, "bits");
    check_eq!(b1 == b2, l1 == l2, "equality of {b1:?} and {b2:?}");
    check_eq!(b1.is_empty(), l1.is_empty(), "is_empty");
    if n + m <= 256 {
        let cat: Vec<bool> = l1.iter().chain(&l2).copied().collect();
        check_eq!(b1 + b2, mk(&cat), "concatenation of {b1:?} and {b2:?}");
    }
    let d = l1.iter().zip(&l2).take_while(|(x, y)| x == y).count();
    let (common, parted) = b1.common_prefix(&b2);
    check_eq!(list(&common), l1[..d], "common prefix of {b1:?} and {b2:?}");
    check_eq!(parted, (d < n.min(m)).then(|| (l1[d], l2[d])), "where {b1:?} and {b2:?} part");
    let mut x = b1;
    let mut y = l1.clone();
    for _ in 0..c.below(n + 1) {
        check_eq!(x.pop_next_bit(), y.pop().unwrap(), "pop");
        check_eq!(x, mk(&y), "after pop");
    }
    let u = U256::from_limbs(c.rng.gen());
    let bu = Bits::from(u);
    check!(bu.count == 256 && (0..256).all(|i| bu.get_bit(i) == u.bit(255 - i)), "bits of {u:#x}");
    check_eq!(Bits::from(B256::from(u)), bu, "bits of {u:#x} as a hash");
    // Conversions.
    check_eq!(key2u(key(&k)).into_limbs(), k, "key2u");
    let h = HashOut { elements: k.map(F::from_canonical_u64) };
    check_eq!(hashout2u(h).into_limbs(), k, "hashout2u");
    check_eq!(hashout2h(h), B256::from(U256::from_limbs(k)), "hashout2h");
    c.evals(12);
    c.count("path", 1);
    c.distinct((k, n, m));
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("derived keys and bytecode hashes against an independent statement of their definition (byte by byte, over the Poseidon permutation); paths (Bits, split/join) against lists of booleans; distinct: keys, hashes, (key, lengths)");
    c.assume("the Poseidon permutation (plonky2) is trusted");
    let n = c.n(80000, 1500000);
    c.stage("derivation", n, derivation);
    c.stage("bytecode", n / 2, bytecode);
    c.stage("paths", n, paths);
    for k in ["derivation", "code", "path"] {
        c.require(k, 1000);
    }
}
