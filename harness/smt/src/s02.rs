//! Serialized, pruned and partially known sparse Merkle trees keep the root,
//! and carry what they have to, and nothing else.

use alloy::primitives::U256;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hash_types::HashOut;
use smt_trie::bits::Bits;
use smt_trie::db::MemoryDb;
use smt_trie::smt::{hash_serialize, hash_serialize_u256, Key, Smt};
use vh_core::*;

use crate::model::*;
use crate::s01::smt_root;

/// The specified tree: what is where.
#[derive(Debug, Clone, PartialEq)]
enum T {
    Empty,
    Hash(H),
    Leaf(K, U256),
    Node(Box<T>, Box<T>),
}

fn u2h(u: U256) -> H {
    *u.as_limbs()
}

/// `kept(path)`: whether the node at `path` is not to be hashed out.
fn spec(kv: &[Kv], path: &mut Vec<bool>, kept: &dyn Fn(&[bool]) -> bool) -> T {
    let d = path.len();
    if kv.is_empty() {
        T::Empty
    } else if !kept(path) {
        T::Hash(root_of(kv, d))
    } else if let [(k, v)] = kv {
        T::Leaf(rem(k, d), *v)
    } else {
        let (r, l): (Vec<Kv>, Vec<Kv>) = kv.iter().partition(|(k, _)| bit(k, d));
        path.push(false);
        let a = spec(&l, path, kept);
        path.pop();
        path.push(true);
        let b = spec(&r, path, kept);
        path.pop();
        T::Node(Box::new(a), Box::new(b))
    }
}

/// Reads a serialization; `seen` counts the cells used.
fn parse(v: &[U256], ptr: usize, seen: &mut usize) -> R<T> {
    if ptr == 0 {
        return Ok(T::Empty);
    }
    check!(ptr < v.len(), "pointer {ptr} outside of the serialization ({} cells)", v.len());
    let at = |i: usize| v.get(ptr + i).copied().ok_or_else(|| format!("node at {ptr} is cut off"));
    Ok(match u64::try_from(v[ptr]).map_err(|_| format!("bad type at {ptr}"))? {
        0 => {
            *seen += 2;
            let h = u2h(at(1)?);
            if h == ZERO {
                T::Empty
            } else {
                T::Hash(h)
            }
        }
        1 => {
            *seen += 3;
            let (l, r) = (at(1)?.to::<usize>(), at(2)?.to::<usize>());
            check!((l == 0 || l > ptr) && (r == 0 || r > ptr), "node at {ptr} points back to {l}, {r}");
            T::Node(Box::new(parse(v, l, seen)?), Box::new(parse(v, r, seen)?))
        }
        2 => {
            *seen += 3;
            T::Leaf(u2h(at(1)?), at(2)?)
        }
        t => return Err(format!("type {t} at {ptr}")),
    })
}

fn verify(s: &Smt<MemoryDb>, v: &[U256], want: &T, root: H, what: &str) -> R {
    check!(v.len() >= 4 && v[0].is_zero() && v[1].is_zero(), "{what}: does not begin with the empty node: {v:?}");
    let mut seen = 2;
    let got = parse(v, 2, &mut seen)?;
    check!(got == *want, "{what}: is\n{got:x?}\nspecified\n{want:x?}");
    check_eq!(seen, v.len(), "{what}: cells used");
    check_eq!(hash_serialize(v).elements.map(|x| x.to_canonical_u64()), root, "{what}: hash_serialize");
    check_eq!(u2h(hash_serialize_u256(v)), root, "{what}: hash_serialize_u256");
    check_eq!(smt_root(s), root, "{what}: root");
    Ok(())
}

fn bits(p: &[bool]) -> Bits {
    let mut b = Bits::empty();
    for x in p {
        b.push_bit(*x);
    }
    b
}

fn hashes(t: &T, path: &mut Vec<bool>, out: &mut Vec<(Vec<bool>, H)>) {
    match t {
        T::Hash(h) => out.push((path.clone(), *h)),
        T::Node(a, b) => {
            path.push(false);
            hashes(a, path, out);
            path.pop();
            path.push(true);
            hashes(b, path, out);
            path.pop();
        }
        _ => {}
    }
}

fn build(m: &Map) -> Smt<MemoryDb> {
    let mut s = Smt::default();
    for (k, v) in m {
        s.set(key(k), *v);
    }
    s
}

fn prefix_of(p: &[bool], k: &K) -> bool {
    p.iter().enumerate().all(|(l, b)| bit(k, l) == *b)
}

fn gen(c: &mut Case) -> (Gen, Map) {
    let g = Gen::new(c);
    let n = *[0, 1, 2, 3, 6, 12, 40].choose(&mut c.rng).unwrap();
    let mut m: Map = (0..n).map(|_| (g.key(c), value(c))).collect();
    if c.chance(0.2) {
        // Equal values, and equal remaining keys.
        let v = value(c);
        m.values_mut().for_each(|x| *x = v);
    }
    (g, m)
}

fn pick(c: &mut Case, g: &Gen, m: &Map) -> Vec<K> {
    let mut ks: Vec<K> = m.keys().filter(|_| c.rng.gen_bool(0.3)).copied().collect();
    for _ in 0..c.below(3) {
        ks.push(g.key(c));
    }
    ks.shuffle(&mut c.rng);
    ks
}

fn pruned(c: &mut Case) -> R {
    let (g, m) = gen(c);
    let mut s = build(&m);
    if c.chance(0.3) {
        // Leave something behind in the database.
        for _ in 0..3 {
            let k = g.key(c);
            if !m.contains_key(&k) {
                s.set(key(&k), U256::from(3));
                s.delete(key(&k));
            }
        }
    }
    let r = root(&m);
    let all = kvs(&m);
    verify(&s, &s.serialize(), &if m.is_empty() { T::Empty } else { spec(&all, &mut vec![], &|p| m.keys().any(|k| prefix_of(p, k))) }, r, "serialize()")?;
    for _ in 0..2 {
        let ks = pick(c, &g, &m);
        c.log(|| format!("keys {:x?}, kept {ks:x?}", m.keys().collect::<Vec<_>>()));
        let want = spec(&all, &mut vec![], &|p| ks.iter().any(|k| prefix_of(p, k)));
        let v = s.serialize_and_prune(ks.iter().map(key));
        verify(&s, &v, &want, r, &format!("serialize_and_prune({ks:x?})"))?;
        let mut hs = vec![];
        hashes(&want, &mut vec![], &mut hs);
        c.count("hashed-out", hs.len() as u64);
        c.evals(2);
        c.count("pruned", 1);
        c.distinct((r, &ks));

        // Rebuild what is left from its hashes and leaves, and go on with it.
        let mut p = Smt::<MemoryDb>::default();
        hs.shuffle(&mut c.rng);
        for (path, h) in &hs {
            p.set_hash(bits(path), HashOut { elements: h.map(F::from_canonical_u64) });
        }
        let mut known: Map = m.iter().filter(|(k, _)| !hs.iter().any(|(p, _)| prefix_of(p, k))).map(|(k, v)| (*k, *v)).collect();
        let mut order: Vec<K> = known.keys().copied().collect();
        order.shuffle(&mut c.rng);
        for k in &order {
            p.set(key(k), known[k]);
        }
        check_eq!(smt_root(&p), r, "root of the tree rebuilt from hashes at {:?} and keys {order:x?}", hs.iter().map(|h| bits(&h.0)).collect::<Vec<_>>());
        let v2 = p.serialize_and_prune(ks.iter().map(key));
        verify(&p, &v2, &want, r, "the rebuilt tree")?;
        let mut full = m.clone();
        for _ in 0..c.below(6) {
            let k = if c.chance(0.6) && !known.is_empty() { *known.keys().nth(c.rng.gen_range(0..known.len())).unwrap() } else { g.key(c) };
            if hs.iter().any(|(p, _)| prefix_of(p, &k)) {
                continue;
            }
            if c.chance(0.5) {
                // A removal that leaves a hashed-out node without a sibling cannot be done without knowing it.
                let deep = full.keys().filter(|a| **a != k).map(|a| lcp(a, &k)).max();
                let alone = deep.is_some_and(|d| hs.iter().any(|(p, _)| p.len() == d + 1 && prefix_of(&p[..d], &k)));
                if alone && full.contains_key(&k) {
                    c.count("removal-skipped", 1);
                    continue;
                }
                p.set(key(&k), U256::ZERO);
                full.remove(&k);
                known.remove(&k);
                c.count("lockstep-remove", 1);
            } else {
                let v = value(c);
                p.set(key(&k), v);
                full.insert(k, v);
                known.insert(k, v);
                c.count("lockstep-set", 1);
            }
            check_eq!(smt_root(&p), root(&full), "root of the partial tree (hashes at {:?}) after a change of {k:x?}", hs.iter().map(|h| bits(&h.0)).collect::<Vec<_>>());
            for (k, v) in known.iter().take(8) {
                check_eq!(p.get(key(k)), *v, "get({k:x?}) in the partial tree");
            }
            let want = spec(&kvs(&full), &mut vec![], &|p| !hs.iter().any(|h| p.len() >= h.0.len() && p[..h.0.len()] == h.0));
            verify(&p, &p.serialize_and_prune(known.keys().map(key)), &prune_spec(&want, &known, &mut vec![]), root(&full), "the changed partial tree")?;
            c.eval();
        }
    }
    Ok(())
}

/// As `serialize_and_prune` does with what is known.
fn prune_spec(t: &T, known: &Map, path: &mut Vec<bool>) -> T {
    fn h(t: &T) -> H {
        match t {
            T::Empty => ZERO,
            T::Hash(h) => *h,
            T::Leaf(k, v) => poseidon(*k, value_hash(*v), 1),
            T::Node(a, b) => poseidon(h(a), h(b), 0),
        }
    }
    if *t == T::Empty {
        return T::Empty;
    }
    if !known.keys().any(|k| prefix_of(path, k)) {
        return T::Hash(h(t));
    }
    match t {
        T::Node(a, b) => {
            path.push(false);
            let a = prune_spec(a, known, path);
            path.pop();
            path.push(true);
            let b = prune_spec(b, known, path);
            path.pop();
            T::Node(Box::new(a), Box::new(b))
        }
        t => t.clone(),
    }
}

/// A hash may only be put where there is nothing.
fn refusals(c: &mut Case) -> R {
    let (_, m) = gen(c);
    if m.is_empty() {
        return Ok(());
    }
    let k = *m.keys().nth(c.rng.gen_range(0..m.len())).unwrap();
    let d = m.keys().filter(|a| **a != k).map(|a| lcp(a, &k) + 1).max().unwrap_or(0);
    let path: Vec<bool> = (0..c.below(d + 1)).map(|l| bit(&k, l)).collect();
    let mut s = build(&m);
    let h = HashOut { elements: [F::from_canonical_u64(9); 4] };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.set_hash(bits(&path), h)));
    check!(r.is_err(), "set_hash at {path:?} replaced what was there");
    // An attempt to do so must not have changed the tree.
    check_eq!(smt_root(&s), root(&m), "root after a refused set_hash");
    c.eval();
    c.count("refused", 1);
    let _ = Key([F::ZERO; 4]);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("a case takes a tree, serializes it whole and for two sets of keys, reads the result with an independent parser and compares it with the specified pruned tree; then rebuilds a partial tree from the hashes and leaves (set_hash, set) and applies changes to it and the whole map in step; distinct: (root, kept keys)");
    c.assume("Poseidon itself (plonky2) is trusted; a removal that would leave a hashed-out node without a sibling needs that node, and is not generated");
    let n = c.n(5000, 80000);
    c.stage("pruned", n, pruned);
    c.stage("refusals", n / 4, refusals);
    for k in ["pruned", "hashed-out", "lockstep-set", "lockstep-remove", "refused"] {
        c.require(k, 50);
    }
}
