//! A trie built from Merkle proofs is the partial trie those proofs describe.

use std::collections::HashMap;
use std::sync::Arc;

use eth_trie::Trie;
use ethereum_types::H256;
use keccak_hash::keccak;
use mpt_trie::builder::PartialTrieBuilder;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie, StandardTrie};
use mpt_trie::trie_ops::ValOrHash;
use vh_core::*;

use crate::m03::{expected, show};
use crate::model::*;

/// The proof for `k`: the encodings of the nodes on its path that are not embedded in their parent.
fn proof<N: PartialTrie>(n: &Node<N>, k: &[u8], root: bool, out: &mut Vec<Vec<u8>>) {
    if matches!(n, Node::Empty) {
        return;
    }
    let r = node_rlp(n).unwrap();
    if root || r.len() >= 32 {
        out.push(r);
    }
    match n {
        Node::Branch { children, .. } if !k.is_empty() => proof(&children[k[0] as usize], &k[1..], false, out),
        Node::Extension { nibbles, child } => {
            let e = unnib(nibbles);
            if k.starts_with(&e) {
                proof(child, &k[e.len()..], false, out);
            }
        }
        _ => {}
    }
}

fn from_proofs<T: PartialTrie>(c: &mut Case) -> R {
    let fam = Family::pick_prefix_free(c);
    let mut g = Gen::new(c, fam);
    let n = *[0, 1, 2, 3, 10, 40].choose(&mut c.rng).unwrap();
    let mut m = gen_map(c, &mut g, n);
    if c.chance(0.4) {
        for v in m.values_mut() {
            v.truncate(1 + v.len() % 3);
        }
    }
    let full: T = build(&m)?;
    let root = spec_root(&m);
    let keys: Vec<Key> = (0..c.below(6)).map(|_| if c.chance(0.7) && !m.is_empty() { let i = c.below(m.len()); m.keys().nth(i).unwrap().clone() } else { g.key(c) }).collect();
    c.log(|| format!("map {:02x?}\nkeys {:?}", m.iter().map(|(k, v)| (hex(k), v)).collect::<Vec<_>>(), keys.iter().map(|k| hex(k)).collect::<Vec<_>>()));
    let mut b = PartialTrieBuilder::<T>::new(root, HashMap::new());
    let mut proofs = vec![];
    for k in &keys {
        let mut p = vec![];
        proof(&full, k, true, &mut p);
        proofs.push(p);
    }
    let mut order = proofs.clone();
    order.shuffle(&mut c.rng);
    for mut p in order {
        if c.chance(0.3) {
            p.shuffle(&mut c.rng);
        }
        b.insert_proof(p);
    }
    let variants = c.chance(0.4);
    if variants {
        for p in &proofs {
            b.insert_short_node_variants_from_proof(p.clone());
        }
        c.count("with-variants", 1);
    }
    let t = b.build();
    check_eq!(if m.is_empty() { root } else { t.hash() }, root, "root of the trie built from proofs for {} keys (variants: {variants})", keys.len());
    for k in &keys {
        check_eq!(t.get(nib(k)), m.get(k).map(|v| v.as_slice()), "get({}) after building from its proof", hex(k));
        c.eval();
    }
    // No entry that is not in the whole, and what is not in the proofs is hashed out.
    for (k, v) in t.items() {
        if let ValOrHash::Val(v) = v {
            check_eq!(Some(&v), m.get(&unnib(&k)), "entry {} of the built trie", k);
        }
    }
    if !variants && !keys.is_empty() {
        let ks: Vec<&[u8]> = keys.iter().map(|k| k.as_slice()).collect();
        let want: T = expected(&full, &ks).unwrap();
        check!(t == want, "the built trie is not the one the proofs describe; got\n{}expected\n{}", show(&t), show(&want));
    }
    if proofs.iter().flatten().any(|p| rlp_has_inline(p)) {
        c.count("with-inline-child", 1);
    }
    c.count("built", 1);
    c.distinct((root, &keys));
    c.evals(2);
    c.sample(|| format!("{} keys, proofs of {:?} nodes", m.len(), proofs.iter().map(|p| p.len()).collect::<Vec<_>>()));
    Ok(())
}

fn rlp_has_inline(p: &[u8]) -> bool {
    rlp::Rlp::new(p).iter().any(|i| i.is_list())
}

/// Proofs from eth_trie, an independent implementation.
fn third_party(c: &mut Case) -> R {
    let mut e = eth_trie::EthTrie::new(Arc::new(eth_trie::MemoryDB::new(true)));
    let n = 1 + c.below(40);
    let mut m = Map::new();
    let hashed = c.chance(0.5);
    for _ in 0..n {
        let mut kb: Vec<u8> = vec![c.below(4) as u8 * 17, c.below(256) as u8, c.below(3) as u8];
        if hashed {
            kb = keccak(&kb).0.to_vec();
        }
        let v = value(c);
        e.insert(&kb, &v).map_err(|e| e.to_string())?;
        m.insert(kb.iter().flat_map(|b| [b >> 4, b & 15]).collect(), v);
    }
    let root = H256(e.root_hash().map_err(|e| e.to_string())?.0);
    let mut b = PartialTrieBuilder::<HashedPartialTrie>::new(root, HashMap::new());
    let keys: Vec<Key> = m.keys().filter(|_| c.rng.gen_bool(0.3)).cloned().collect();
    for k in &keys {
        let kb: Vec<u8> = k.chunks(2).map(|x| x[0] << 4 | x[1]).collect();
        b.insert_proof(e.get_proof(&kb).map_err(|e| e.to_string())?);
    }
    let t = b.build();
    check_eq!(t.hash(), root, "root of the trie built from eth_trie's proofs");
    for k in &keys {
        check_eq!(t.get(nib(k)), m.get(k).map(|v| v.as_slice()), "get({})", hex(k));
    }
    c.count("third-party", 1);
    c.distinct((root, keys));
    c.evals(2);
    Ok(())
}

/// The purpose of the variants: proofs from before and after a deletion allow replaying it.
fn variants(c: &mut Case) -> R {
    let fam = Family::Full;
    let mut g = Gen::new(c, fam);
    let n = 2 + c.below(12);
    let mut m = gen_map(c, &mut g, n);
    for v in m.values_mut() {
        if v.len() < 32 {
            v.resize(40, 7);
        }
    }
    let pre: HashedPartialTrie = build(&m)?;
    let root = spec_root(&m);
    let i = c.below(m.len());
    let k = m.keys().nth(i).unwrap().clone();
    let mut m2 = m.clone();
    m2.remove(&k);
    let post: HashedPartialTrie = build(&m2)?;
    let mut b = PartialTrieBuilder::<HashedPartialTrie>::new(root, HashMap::new());
    let (mut p, mut q) = (vec![], vec![]);
    proof(&*pre, &k, true, &mut p);
    proof(&*post, &k, true, &mut q);
    b.insert_proof(p);
    b.insert_short_node_variants_from_proof(q);
    let mut t = b.build();
    check_eq!(t.hash(), root, "root with variants");
    check_eq!(t.get(nib(&k)), m.get(&k).map(|v| v.as_slice()), "get with variants");
    let r = t.delete(nib(&k));
    match r {
        Ok(v) => {
            check_eq!(v, m.get(&k).cloned(), "deleted value");
            check_eq!(t.hash(), spec_root(&m2), "root after replaying the deletion of {}", hex(&k));
            c.count("replayed", 1);
        }
        Err(e) => {
            // Only where what remains next to it is a branch, which has no variant.
            let lcp = |a: &Key| a.iter().zip(&k).take_while(|(x, y)| x == y).count();
            let d = m2.keys().map(lcp).max().unwrap_or(0);
            check!(m2.keys().filter(|a| lcp(a) == d).count() > 1, "the deletion of {} cannot be replayed though the proof afterwards holds the sibling leaf: {e}", hex(&k));
            c.count("sibling-is-branch", 1);
        }
    }
    c.distinct((root, &k));
    c.evals(3);
    Ok(())
}

fn edge(c: &mut Case) -> R {
    // Nothing known: the root alone. The empty trie.
    let h = H256(std::array::from_fn(|_| c.rng.gen()));
    let t = PartialTrieBuilder::<StandardTrie>::new(h, HashMap::new()).build();
    check!(matches!(*t, Node::Hash(x) if x == h), "no proof: not the hash node of the root");
    let e = PartialTrieBuilder::<StandardTrie>::new(keccak([0x80]), HashMap::new()).build();
    check!(matches!(*e, Node::Empty), "empty root: not the empty trie");
    let e = PartialTrieBuilder::<StandardTrie>::new(H256::zero(), HashMap::new()).build();
    check!(matches!(*e, Node::Empty), "zero root: not the empty trie");
    c.evals(3);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("a distinct observation is a distinct (root, proven key set) from whose proofs a trie was built and compared");
    for (e, n) in [("built", 2000), ("with-inline-child", 100), ("third-party", 100), ("replayed", 100), ("with-variants", 300)] {
        c.require(e, n);
    }
    let n = c.n(20000, 300000);
    c.stage("proofs-hashed", n, from_proofs::<HashedPartialTrie>);
    c.stage("proofs-standard", n, from_proofs::<StandardTrie>);
    c.stage("third-party", n / 3, third_party);
    c.stage("variants", n / 3, variants);
    c.stage("edge", 20, edge);
}
