//! The root is the Merkle Patricia root of the content: for every history, at
//! every moment, whatever has been cached and shared.

use eth_trie::Trie;
use ethereum_types::{U128, U256, U512};
use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie, StandardTrie};
use mpt_trie::trie_ops::ValOrHash;
use mpt_trie::trie_subsets::create_trie_subset;
use std::sync::Arc;
use vh_core::*;

use crate::model::*;

fn history<T: PartialTrie>(c: &mut Case, fam: Family, steps: usize) -> R {
    let mut g = Gen::new(c, fam);
    let mut copies: Vec<(T, Map)> = vec![(T::default(), Map::new())];
    for step in 0..steps {
        let i = c.below(copies.len());
        let mut k = g.key(c);
        if !copies[i].1.is_empty() && c.chance(0.4) {
            let n = c.below(copies[i].1.len());
            k = copies[i].1.keys().nth(n).unwrap().clone();
        }
        let (t, m) = &mut copies[i];
        match c.below(20) {
            0..=9 => {
                let v = value(c);
                c.log(|| format!("#{i} insert {} = {:02x?}", hex(&k), v));
                t.insert(nib(&k), v.clone()).map_err(|e| e.to_string())?;
                m.insert(k, v);
            }
            10..=13 => {
                c.log(|| format!("#{i} delete {}", hex(&k)));
                t.delete(nib(&k)).map_err(|e| e.to_string())?;
                m.remove(&k);
            }
            14 => {
                let n = c.below(5);
                let batch: Vec<(Key, Vec<u8>)> = (0..n).map(|_| (g.key(c), value(c))).collect();
                c.log(|| format!("#{i} extend {:?}", batch.iter().map(|(k, v)| (hex(k), v)).collect::<Vec<_>>()));
                t.extend(batch.iter().map(|(k, v)| (nib(k), v.clone()))).map_err(|e| e.to_string())?;
                m.extend(batch);
            }
            15 | 16 => {
                // Deriving a subset hashes nodes, the root among them.
                c.log(|| format!("#{i} subset"));
                let keys: Vec<_> = if c.chance(0.5) { vec![] } else { vec![nib(&k)] };
                let s = create_trie_subset(t, keys).map_err(|e| e.to_string())?;
                check_eq!(s.hash(), spec_root(m), "root of a subset of copy #{i}, step {step}");
                c.count("subset", 1);
            }
            17 => {
                c.log(|| format!("#{i} round trip through items"));
                let mut items: Vec<_> = t.items().collect();
                items.shuffle(&mut c.rng);
                let mut u = T::default();
                for (k, v) in items {
                    u.insert(k, v.expect_val()).map_err(|e| e.to_string())?;
                }
                check!(u == *t, "the trie depends on the order of insertion");
                check_eq!(u.hash(), spec_root(m), "root of the trie rebuilt in another order");
                c.count("reordered", 1);
            }
            _ => {
                let n = (t.clone(), m.clone());
                c.log(|| format!("#{i} clone"));
                if copies.len() < 4 {
                    copies.push(n);
                } else {
                    let j = c.below(4);
                    copies[j] = n;
                }
            }
        }
        // Not after every step: caches have to survive, and be dropped by, several.
        if c.chance(0.4) || step + 1 == steps {
            for (j, (t, m)) in copies.iter().enumerate() {
                let want = spec_root(m);
                check_eq!(t.hash(), want, "root of copy #{j} at step {step}, {} keys", m.len());
                check_eq!(t.clone().hash(), want, "root of a clone");
                c.distinct(want);
                c.evals(2);
                c.count("root", 1);
            }
        }
    }
    c.sample(|| format!("{fam:?}, {steps} steps, copies: {:?}", copies.iter().map(|(_, m)| format!("{} keys, root {:x}", m.len(), spec_root(m))).collect::<Vec<_>>()));
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("a distinct observation is a distinct root that was compared with the root computed from the definition");
    c.assume("the yellow paper's definition as written in the monitor (which is itself compared with eth_trie in stage 'third-party')");
    c.require("root", 5000);
    c.require("subset", 300);
    c.require("third-party", 100);
    let n = c.n(20000, 300000);
    c.stage("hashed", n, |c| {
        let f = Family::pick(c);
        let s = 10 + c.below(60);
        history::<HashedPartialTrie>(c, f, s)
    });
    c.stage("standard", n / 2, |c| {
        let f = Family::pick(c);
        let s = 10 + c.below(60);
        history::<StandardTrie>(c, f, s)
    });
    let n2 = c.n(3000, 40000);
    c.stage("third-party", n2, |c| {
        // eth_trie takes whole-byte keys.
        let mut g = Gen::new(c, Family::MixedLong);
        let n = c.below(60);
        let m: Map = gen_map(c, &mut g, n).into_iter().map(|(mut k, v)| { k.truncate(k.len() / 2 * 2); (k, v) }).collect();
        let mut e = eth_trie::EthTrie::new(Arc::new(eth_trie::MemoryDB::new(true)));
        for (k, v) in &m {
            let kb: Vec<u8> = k.chunks(2).map(|x| x[0] << 4 | x[1]).collect();
            e.insert(&kb, v).map_err(|e| e.to_string())?;
        }
        let want = e.root_hash().map_err(|e| e.to_string())?;
        check_eq!(spec_root(&m).0, want.0, "monitor's own root against eth_trie");
        let t: HashedPartialTrie = build(&m)?;
        check_eq!(t.hash().0, want.0, "root against eth_trie for {} keys", m.len());
        c.count("third-party", 1);
        c.distinct(want.0);
        c.evals(1);
        Ok(())
    });
    c.stage("values", 200, |c| {
        // Values of every accepted type are their big-endian bytes.
        let b: [u8; 64] = std::array::from_fn(|_| c.rng.gen());
        let v = |x: ValOrHash| x.expect_val();
        check_eq!(v(U256::from_big_endian(&b[..32]).into()), b[..32].to_vec(), "U256 as a value");
        check_eq!(v(U128::from_big_endian(&b[..16]).into()), b[..16].to_vec(), "U128 as a value");
        check_eq!(v(U512::from_big_endian(&b).into()), b.to_vec(), "U512 as a value");
        check_eq!(v(u64::from_be_bytes(b[..8].try_into().unwrap()).into()), b[..8].to_vec(), "u64 as a value");
        check_eq!(v(u32::from_be_bytes(b[..4].try_into().unwrap()).into()), b[..4].to_vec(), "u32 as a value");
        check_eq!(v(u16::from_be_bytes(b[..2].try_into().unwrap()).into()), b[..2].to_vec(), "u16 as a value");
        check_eq!(v(b[0].into()), vec![b[0]], "u8 as a value");
        check_eq!(v((&b[..7]).into()), b[..7].to_vec(), "slice as a value");
        c.evals(8);
        Ok(())
    });
    let nf = c.n(3000, 40000);
    c.stage("failed-extend", nf, |c| {
        // An extend that fails part-way: what is reported afterwards is the root of what is there.
        let mut g = Gen::new(c, Family::Full);
        let n = 4 + c.below(12);
        let m = gen_map(c, &mut g, n);
        let full: HashedPartialTrie = build(&m)?;
        let keep: Vec<_> = m.keys().take(2).map(|k| nib(k)).collect();
        let t: HashedPartialTrie = create_trie_subset(&full, keep).map_err(|e| e.to_string())?;
        // As a child of another node, so that its hash is cached.
        let _ = create_trie_subset(&t, Vec::<mpt_trie::nibbles::Nibbles>::new()).map_err(|e| e.to_string())?;
        let mut u = t.clone();
        let mut batch: Vec<_> = m.keys().map(|k| (nib(k), value(c))).collect();
        if c.chance(0.5) {
            batch.shuffle(&mut c.rng);
        }
        let r = u.extend(batch);
        c.count(if r.is_err() { "extend-failed" } else { "extend-ok" }, 1);
        check_eq!(u.hash(), node_root(&u), "root after an extend that ended with {:?}", r.is_err());
        check_eq!(t.hash(), full.hash(), "root of the trie that was cloned");
        c.distinct(u.hash());
        c.evals(2);
        Ok(())
    });
    c.require("extend-failed", 50);
}
