//! Partial tries: a subset has the root of the whole, holds exactly what the
//! keys traverse, supports every operation on them, and hash nodes are opaque.

use ethereum_types::H256;
use keccak_hash::keccak;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, OnOrphanedHashNode, PartialTrie, StandardTrie};
use mpt_trie::trie_ops::{TrieOpError, ValOrHash};
use mpt_trie::trie_subsets::{create_trie_subset, create_trie_subsets};
use vh_core::*;

use crate::model::*;

/// The subset that keeps the nodes `keys` traverse, by definition. `Err` if a key runs into a hash node.
pub fn expected<N: PartialTrie>(n: &Node<N>, keys: &[&[u8]]) -> Result<N, ()> {
    let touched = match n {
        Node::Hash(_) => {
            if keys.iter().any(|k| !k.is_empty()) {
                return Err(());
            }
            true
        }
        Node::Extension { .. } => keys.iter().any(|k| !k.is_empty()),
        _ => !keys.is_empty(),
    };
    if !touched {
        if let Ok(r) = node_rlp(n) {
            if r.len() >= 32 {
                return Ok(N::new(Node::Hash(keccak(r))));
            }
        }
    }
    Ok(N::new(match n {
        Node::Empty | Node::Hash(_) | Node::Leaf { .. } => n.clone(),
        Node::Extension { nibbles, child } => {
            let e = unnib(nibbles);
            let sub: Vec<&[u8]> = keys.iter().filter(|k| k.starts_with(&e)).map(|k| &k[e.len()..]).collect();
            Node::Extension { nibbles: *nibbles, child: std::sync::Arc::new(Box::new(expected(child, &sub)?)) }
        }
        Node::Branch { children, value } => {
            let mut out = children.clone();
            for (i, c) in children.iter().enumerate() {
                let sub: Vec<&[u8]> = keys.iter().filter(|k| k.first() == Some(&(i as u8))).map(|k| &k[1..]).collect();
                out[i] = std::sync::Arc::new(Box::new(expected(c, &sub)?));
            }
            Node::Branch { children: out, value: value.clone() }
        }
    }))
}

fn describe<N: PartialTrie>(n: &Node<N>, depth: usize, out: &mut String) {
    if out.len() > 1500 {
        return;
    }
    let pad = "  ".repeat(depth);
    match n {
        Node::Empty => {}
        Node::Hash(h) => *out += &format!("{pad}#{:x}\n", h),
        Node::Leaf { nibbles, value } => *out += &format!("{pad}leaf {nibbles:x} ({} bytes)\n", value.len()),
        Node::Extension { nibbles, child } => {
            *out += &format!("{pad}ext {nibbles:x}\n");
            describe(child, depth + 1, out)
        }
        Node::Branch { children, value } => {
            *out += &format!("{pad}branch ({} bytes)\n", value.len());
            for (i, c) in children.iter().enumerate() {
                if !empty(c) {
                    *out += &format!("{pad} {i:x}:\n");
                    describe(c, depth + 1, out);
                }
            }
        }
    }
}
pub fn show<N: PartialTrie>(n: &Node<N>) -> String {
    let mut s = String::new();
    describe(n, 0, &mut s);
    s
}

pub fn hash_nodes<N: PartialTrie>(n: &Node<N>) -> usize {
    match n {
        Node::Hash(_) => 1,
        Node::Extension { child, .. } => hash_nodes(child),
        Node::Branch { children, .. } => children.iter().map(|c| hash_nodes(c)).sum(),
        _ => 0,
    }
}

fn pick_keys(c: &mut Case, g: &mut Gen, m: &Map, n: usize) -> Vec<Key> {
    (0..n)
        .map(|_| {
            if c.chance(0.75) && !m.is_empty() {
                let i = c.below(m.len());
                m.keys().nth(i).unwrap().clone()
            } else {
                g.key(c)
            }
        })
        .collect()
}

fn subsets<T: PartialTrie>(c: &mut Case) -> R {
    let fam = Family::pick(c);
    let mut g = Gen::new(c, fam);
    let n = *[0, 1, 2, 3, 8, 20, 60].choose(&mut c.rng).unwrap();
    let m = gen_map(c, &mut g, n);
    let full: T = build(&m)?;
    let root = spec_root(&m);
    let sets: Vec<Vec<Key>> = (0..1 + c.below(5))
        .map(|_| {
            let k = *[0, 0, 1, 1, 2, 3, 6].choose(&mut c.rng).unwrap();
            pick_keys(c, &mut g, &m, k)
        })
        .collect();
    c.log(|| format!("keys {:?}\nsets {:?}", m.iter().map(|(k, v)| (hex(k), v.len())).collect::<Vec<_>>(), sets.iter().map(|s| s.iter().map(|k| hex(k)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let all = create_trie_subsets(&full, sets.iter().map(|s| s.iter().map(|k| nib(k)))).map_err(|e| format!("create_trie_subsets on a complete trie: {e}"))?;
    check_eq!(all.len(), sets.len(), "number of subsets");
    for (s, sub) in sets.iter().zip(&all) {
        let one = create_trie_subset(&full, s.iter().map(|k| nib(k))).map_err(|e| format!("create_trie_subset: {e}"))?;
        let ks: Vec<&[u8]> = s.iter().map(|k| k.as_slice()).collect();
        let want: T = expected(&full, &ks).unwrap();
        for (name, got) in [("create_trie_subset", &one), ("create_trie_subsets", sub)] {
            check_eq!(got.hash(), root, "root of the result of {name}");
            check!(*got == want, "{name}({:?}) is not the minimal subset; got\n{}expected\n{}", s.iter().map(|k| hex(k)).collect::<Vec<_>>(), show(got), show(&want));
            for k in s {
                check_eq!(got.get(nib(k)), m.get(k).map(|v| v.as_slice()), "get({}) in the subset for it", hex(k));
            }
            c.evals(2 + s.len() as u64);
        }
        let h = hash_nodes::<T>(&one);
        c.count("hash-nodes", h as u64);
        c.count("subset", 1);
        if h > 0 {
            c.distinct((root, s));
        }
    }
    Ok(())
}

/// Is the only sibling of `k` in the complete trie a branch (so that an extension can point to its hash)?
fn remaining_is_branch(m_after: &Map, k: &Key) -> bool {
    // The deleted key's node was in the deepest branch above it: what remains there is one child.
    let lcp = |a: &Key| a.iter().zip(k).take_while(|(x, y)| x == y).count();
    let d = m_after.keys().map(lcp).max().unwrap_or(0);
    let rest: Vec<&Key> = m_after.keys().filter(|a| lcp(a) == d).collect();
    rest.len() > 1 && rest.iter().any(|a| a.get(d + 1) != rest[0].get(d + 1))
}

/// The same operations on the whole trie and on a subset made for the keys involved.
fn lockstep(c: &mut Case, strategy: OnOrphanedHashNode) -> R {
    let fam = Family::pick_prefix_free(c);
    let mut g = Gen::new(c, fam);
    let n = *[1, 2, 3, 5, 10, 30].choose(&mut c.rng).unwrap();
    let mut m = gen_map(c, &mut g, n);
    let full: HashedPartialTrie = build(&m)?;
    let nk = 1 + c.below(5);
    let keys = pick_keys(c, &mut g, &m, nk);
    let sub = create_trie_subset(&full, keys.iter().map(|k| nib(k))).map_err(|e| e.to_string())?;
    let mut part = HashedPartialTrie::new_with_strategy((*sub).clone(), strategy);
    let steps = 1 + c.below(12);
    c.log(|| format!("strategy {strategy:?}, keys {:?}, involved {:?}", m.keys().map(|k| hex(k)).collect::<Vec<_>>(), keys.iter().map(|k| hex(k)).collect::<Vec<_>>()));
    for step in 0..steps {
        let k = keys.choose(&mut c.rng).unwrap().clone();
        if c.chance(0.5) {
            let v = value(c);
            c.log(|| format!("insert {}", hex(&k)));
            part.insert(nib(&k), v.clone()).map_err(|e| format!("insert({}) into the subset made for it: {e}", hex(&k)))?;
            m.insert(k.clone(), v);
            c.count("insert", 1);
        } else {
            c.log(|| format!("delete {}", hex(&k)));
            let before = part.clone();
            let r = part.delete(nib(&k));
            let mut after = m.clone();
            let want = after.remove(&k);
            match r {
                Ok(got) => {
                    check_eq!(got, want, "step {step}: delete({}) in the subset", hex(&k));
                    m = after;
                    c.count("delete", 1);
                    if matches!(strategy, OnOrphanedHashNode::CollapseToExtension) && want.is_some() && !m.is_empty() && !remaining_is_branch(&m, &k) {
                        // Documented: the hash node is taken for a branch. Right only if it is one.
                        let right = part.hash() == spec_root(&m);
                        c.count(if right { "sole-sibling-known" } else { "sole-sibling-hashed" }, 1);
                        if !right {
                            check!(hash_nodes::<HashedPartialTrie>(&part) > 0, "wrong root {:x} without any hash node", part.hash());
                            return Ok(());
                        }
                    }
                }
                Err(TrieOpError::ExtensionCollapsedIntoHashError(..)) => {
                    check!(want.is_some(), "deleting an absent key failed: {}", hex(&k));
                    check!(matches!(strategy, OnOrphanedHashNode::Reject), "delete({}) refused though the strategy is to collapse", hex(&k));
                    check!(part == before && part.hash() == before.hash(), "a refused delete({}) changed the trie", hex(&k));
                    c.count("refused", 1);
                    // Only a sibling that is hashed out is a reason to refuse.
                    let d = m.keys().filter(|a| **a != k).map(|a| a.iter().zip(&k).take_while(|(x, y)| x == y).count()).max().unwrap_or(0);
                    check!(
                        part.items().any(|(p, v)| matches!(v, ValOrHash::Hash(_)) && { let p = unnib(&p); p.len() > d && p[..d] == k[..d] && p[d] != k[d] }),
                        "delete({}) refused though the sibling is not hashed out", hex(&k)
                    );
                }
                Err(e) => return Err(format!("delete({}) in the subset made for it: {e}", hex(&k))),
            }
        }
        check_eq!(part.hash(), spec_root(&m), "step {step}: root of the subset after the operation on {}, against the root of the whole", hex(&k));
        for k in &keys {
            check_eq!(part.get(nib(k)), m.get(k).map(|v| v.as_slice()), "step {step}: get({})", hex(k));
        }
        c.distinct((spec_root(&m), hash_nodes::<HashedPartialTrie>(&part)));
        c.evals(2);
    }
    c.sample(|| format!("{strategy:?}: {} keys, {} involved, subset\n{}", m.len(), keys.len(), show(&*sub)));
    Ok(())
}

fn opaque<T: PartialTrie>(c: &mut Case) -> R {
    let fam = Family::pick_prefix_free(c);
    let mut g = Gen::new(c, fam);
    let n = 2 + c.below(20);
    let m = gen_map(c, &mut g, n);
    let full: T = build(&m)?;
    let keys = pick_keys(c, &mut g, &m, 1);
    let mut t = create_trie_subset(&full, keys.iter().map(|k| nib(k))).map_err(|e| e.to_string())?;
    let hs: Vec<(Key, H256)> = t.items().filter_map(|(k, v)| match v { ValOrHash::Hash(h) => Some((unnib(&k), h)), _ => None }).collect();
    for _ in 0..6 {
        let mut k = if c.chance(0.6) && !m.is_empty() { let i = c.below(m.len()); m.keys().nth(i).unwrap().clone() } else { g.key(c) };
        if c.chance(0.1) {
            if let Some((p, _)) = hs.first() {
                k = p.clone();
                while k.len() < keys[0].len() { k.push(3); }
            }
        }
        let inside = hs.iter().find(|(p, _)| k.starts_with(p)).map(|x| x.1);
        let before = t.clone();
        let root = t.hash();
        // Reading never invents an answer.
        let got = t.get(nib(&k)).map(|v| v.to_vec());
        match inside {
            Some(_) => check!(got.is_none(), "get({}) under a hash node returned a value", hex(&k)),
            None => check_eq!(got, m.get(&k).cloned(), "get({})", hex(&k)),
        }
        c.eval();
        if let Some(h) = inside {
            let v = value(c);
            check_eq!(t.insert(nib(&k), v).err(), Some(TrieOpError::HashNodeInsertError(h)), "insert({}) under a hash node", hex(&k));
            check!(t == before && t.hash() == root, "a refused insert({}) changed the trie", hex(&k));
            check_eq!(t.delete(nib(&k)).err(), Some(TrieOpError::HashNodeDeleteError(h)), "delete({}) under a hash node", hex(&k));
            check!(t == before && t.hash() == root, "a refused delete({}) changed the trie", hex(&k));
            // Neither can a subset be made through it, and the report is readable.
            let e = create_trie_subset(&t, [nib(&k)]);
            let p = hs.iter().find(|(p, _)| k.starts_with(p)).unwrap();
            if p.0.len() < k.len() {
                let Err(e) = e else { return Err(format!("a subset for {}, which is under a hash node, was produced", hex(&k))) };
                let s = format!("{e}");
                check!(s.contains(&format!("{}", nib(&k))), "the error does not name the key {}: {s}", hex(&k));
            }
            c.count("opaque", 1);
            c.distinct((root, &k));
            c.evals(5);
        }
    }
    // Insert of a hash node where nothing is, and in place of a value.
    let mut b = Map::new();
    let k1 = g.key(c);
    b.insert(k1.clone(), value(c));
    let mut u: T = build(&b)?;
    let h = H256(std::array::from_fn(|_| c.rng.gen()));
    let e = u.insert(nib(&k1), h);
    check!(matches!(e, Err(TrieOpError::ExistingHashNodeError(_))), "a hash over an existing value: {e:?}");
    check_eq!(u.hash(), spec_root(&b), "root after the refused hash insertion");
    let k2 = { let mut k = k1.clone(); let i = c.below(k.len()); k[i] = (k[i] + 1) & 15; k.truncate(i + 1 + c.below(k.len() - i)); k };
    u.insert(nib(&k2), h).map_err(|e| format!("hash insertion: {e}"))?;
    check!(u.items().any(|(k, v)| unnib(&k) == k2 && v == ValOrHash::Hash(h)), "an inserted hash node is not in items()");
    check_eq!(u.get(nib(&k1)).map(|v| v.to_vec()), b.get(&k1).cloned(), "get next to an inserted hash node");
    check_eq!(u.hash(), node_root(&u), "root with an inserted hash node");
    c.evals(4);
    Ok(())
}

fn sub_subset(c: &mut Case) -> R {
    let fam = Family::pick_prefix_free(c);
    let mut g = Gen::new(c, fam);
    let n = 1 + c.below(30);
    let m = gen_map(c, &mut g, n);
    let full: HashedPartialTrie = build(&m)?;
    let nk = 1 + c.below(6);
    let keys = pick_keys(c, &mut g, &m, nk);
    let t = create_trie_subset(&full, keys.iter().map(|k| nib(k))).map_err(|e| e.to_string())?;
    let nk = 1 + c.below(4);
    let k2 = if c.chance(0.7) { keys.iter().take(nk).cloned().collect() } else { pick_keys(c, &mut g, &m, nk) };
    let ks: Vec<&[u8]> = k2.iter().map(|k| k.as_slice()).collect();
    let got = create_trie_subset(&t, k2.iter().map(|k| nib(k)));
    match (expected::<HashedPartialTrie>(&t, &ks), got) {
        (Ok(w), Ok(g)) => {
            check!(w == g, "subset of a subset; got\n{}expected\n{}", show(&*g), show(&*w));
            check_eq!(g.hash(), spec_root(&m), "root of a subset of a subset");
            c.count("sub-ok", 1);
        }
        (Err(()), Err(e)) => {
            let _ = format!("{e}");
            c.count("sub-refused", 1);
        }
        (w, g) => return Err(format!("subset of a subset: specified ok={}, observed ok={}", w.is_ok(), g.is_ok())),
    }
    c.distinct((spec_root(&m), &k2));
    c.evals(2);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("a distinct observation is a distinct (root, key set) for which a subset with at least one hash node was derived, or a distinct (root, number of hash nodes) after an operation on a partial trie");
    c.assume("operations on partial tries use key families in which no key is a prefix of another, as all of Ethereum's tries do; deriving subsets is also driven with other families");
    for (e, n) in [("subset", 2000), ("hash-nodes", 2000), ("opaque", 300), ("refused", 50), ("delete", 500), ("sub-refused", 20)] {
        c.require(e, n);
    }
    let n = c.n(20000, 300000);
    c.stage("subset-hashed", n, subsets::<HashedPartialTrie>);
    c.stage("subset-standard", n / 2, subsets::<StandardTrie>);
    c.stage("lockstep-reject", n, |c| lockstep(c, OnOrphanedHashNode::Reject));
    c.stage("lockstep-collapse", n, |c| lockstep(c, OnOrphanedHashNode::CollapseToExtension));
    c.stage("opaque", n / 2, opaque::<HashedPartialTrie>);
    c.stage("opaque-standard", n / 2, opaque::<StandardTrie>);
    c.stage("sub-subset", n / 2, sub_subset);
}
