//! A trie is a map, along every history of operations over every family of
//! keys, and clones are independent.

use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie, StandardTrie};
use mpt_trie::trie_ops::ValOrHash;
use vh_core::*;

use crate::model::*;

struct Copy_<T> {
    trie: T,
    map: Map,
}

pub fn content<T: PartialTrie>(t: &T, order: bool) -> R<Map> {
    let mut m = Map::new();
    let mut last: Option<Key> = None;
    for (k, v) in t.items() {
        let k = unnib(&k);
        if order {
            check!(last.as_ref().map_or(true, |l| *l < k), "items() is not in lexicographic order: {} after {:?}", hex(&k), last.map(|l| hex(&l)));
        }
        let ValOrHash::Val(v) = v else { return Err(format!("items() of a complete trie has a hash at {}", hex(&k))) };
        check!(m.insert(k.clone(), v).is_none(), "items() yields {} twice", hex(&k));
        last = Some(k);
    }
    Ok(m)
}

pub fn diff(a: &Map, b: &Map) -> String {
    let mut s = String::new();
    for (k, v) in a {
        match b.get(k) {
            None => s += &format!(" extra key {};", hex(k)),
            Some(w) if w != v => s += &format!(" key {} has {:02x?} not {:02x?};", hex(k), v, w),
            _ => {}
        }
    }
    for k in b.keys().filter(|k| !a.contains_key(*k)) {
        s += &format!(" key {} is missing;", hex(k));
    }
    s
}

fn verify<T: PartialTrie>(c: &Copy_<T>, fam: Family, what: &str) -> R {
    let got = content(&c.trie, fam.prefix_free())?;
    check!(got == c.map, "{what}: content differs from the model:{}", diff(&got, &c.map));
    Ok(())
}

/// Absent keys near the stored ones: prefixes, extensions, neighbours.
fn near(c: &mut Case, k: &Key) -> Key {
    let mut k = k.clone();
    match c.below(4) {
        0 if !k.is_empty() => {
            let n = c.below(k.len());
            k.truncate(n);
        }
        1 if k.len() < 64 => {
            let n = 1 + c.below((64 - k.len()).min(3));
            for _ in 0..n {
                k.push(c.below(16) as u8);
            }
        }
        _ if !k.is_empty() => {
            let i = c.below(k.len());
            k[i] = c.below(16) as u8;
        }
        _ => k = vec![c.below(16) as u8],
    }
    k
}

pub fn history<T: PartialTrie>(c: &mut Case, fam: Family, steps: usize) -> R {
    let mut g = Gen::new(c, fam);
    let mut copies: Vec<Copy_<T>> = vec![Copy_ { trie: T::default(), map: Map::new() }];
    for step in 0..steps {
        let i = c.below(copies.len());
        let op = c.below(100);
        // A key that may be stored here, or related to one that is.
        let mut k = g.key(c);
        if !copies[i].map.is_empty() && c.chance(0.5) {
            let n = c.below(copies[i].map.len());
            k = copies[i].map.keys().nth(n).unwrap().clone();
        }
        let cp = &mut copies[i];
        match op {
            0..=39 => {
                let v = value(c);
                c.log(|| format!("#{i} insert {} = {:02x?}", hex(&k), v));
                cp.trie.insert(nib(&k), v.clone()).map_err(|e| format!("insert({}) failed: {e}", hex(&k)))?;
                if cp.map.insert(k, v).is_some() {
                    c.count("overwrite", 1);
                } else {
                    c.count("insert", 1);
                }
            }
            40..=64 => {
                if !fam.prefix_free() || c.chance(0.2) {
                    if c.chance(0.3) {
                        k = near(c, &k);
                    }
                }
                c.log(|| format!("#{i} delete {}", hex(&k)));
                let r = cp.trie.delete(nib(&k)).map_err(|e| format!("delete({}) failed: {e}", hex(&k)))?;
                let want = cp.map.remove(&k);
                c.count(if want.is_some() { "delete-present" } else { "delete-absent" }, 1);
                check_eq!(r, want, "step {step}: result of delete({})", hex(&k));
            }
            65..=89 => {
                if c.chance(0.4) {
                    k = near(c, &k);
                }
                c.log(|| format!("#{i} get {}", hex(&k)));
                let want = cp.map.get(&k);
                check_eq!(cp.trie.get(nib(&k)), want.map(|v| v.as_slice()), "step {step}: get({})", hex(&k));
                check_eq!(cp.trie.contains(nib(&k)), want.is_some(), "step {step}: contains({})", hex(&k));
                c.count(if want.is_some() { "get-present" } else { "get-absent" }, 1);
            }
            90..=93 => {
                let n = c.below(6);
                let batch: Vec<(Key, Vec<u8>)> = (0..n).map(|_| (g.key(c), value(c))).collect();
                c.log(|| format!("#{i} extend {:?}", batch.iter().map(|(k, v)| (hex(k), v)).collect::<Vec<_>>()));
                cp.trie.extend(batch.iter().map(|(k, v)| (nib(k), v.clone()))).map_err(|e| format!("extend failed: {e}"))?;
                cp.map.extend(batch);
                c.count("extend", 1);
            }
            94..=96 => {
                let h = cp.trie.hash();
                c.log(|| format!("#{i} hash {h:x}"));
            }
            _ => {
                c.log(|| format!("#{i} clone -> #{}", copies.len().min(3)));
                let n = Copy_ { trie: copies[i].trie.clone(), map: copies[i].map.clone() };
                check!(n.trie == copies[i].trie, "a clone differs from the original");
                if copies.len() < 4 {
                    copies.push(n);
                } else {
                    let j = c.below(4);
                    copies[j] = n;
                }
                c.count("clone", 1);
            }
        }
        c.eval();
        if step % 8 == 7 || step + 1 == steps {
            for (j, cp) in copies.iter().enumerate() {
                verify(cp, fam, &format!("step {step}, copy #{j} (last operation on #{i})"))?;
                let ks: Vec<Key> = cp.trie.keys().map(|k| unnib(&k)).collect();
                let vs: Vec<_> = cp.trie.values().collect();
                let its: Vec<_> = cp.trie.items().collect();
                check!(ks.len() == its.len() && its.iter().zip(&ks).zip(&vs).all(|(((k, v), k2), v2)| unnib(k) == *k2 && v == v2), "keys()/values() disagree with items()");
                canonical(&cp.trie, true)?;
                c.distinct((&cp.map, fam));
                c.eval();
            }
        }
    }
    c.sample(|| format!("{fam:?}, {steps} steps, {} copies; first copy ends with {} keys: {:?}", copies.len(), copies[0].map.len(), copies[0].map.keys().take(6).map(|k| hex(k)).collect::<Vec<_>>()));
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("a distinct observation is a distinct (key family, complete map content) at which the whole trie was compared with the model");
    c.assume("keys of at most 64 nibbles and non-empty values (an empty value is how the protocol writes absence)");
    for e in ["insert", "overwrite", "delete-present", "delete-absent", "get-present", "get-absent", "clone"] {
        c.require(e, 500);
    }
    let n = c.n(24000, 400000);
    c.stage("standard", n, |c| {
        let f = Family::pick(c);
        let s = 20 + c.below(120);
        history::<StandardTrie>(c, f, s)
    });
    c.stage("hashed", n, |c| {
        let f = Family::pick(c);
        let s = 20 + c.below(120);
        history::<HashedPartialTrie>(c, f, s)
    });
    let n = c.n(24, 400);
    c.stage("large", n, |c| {
        let f = if c.chance(0.5) { Family::Full } else { Family::MixedLong };
        let mut g = Gen::new(c, f);
        g.alphabet = (0..16).collect();
        let k = 2000 + c.below(3000);
        let m = gen_map(c, &mut g, k);
        let mut cp = Copy_ { trie: build::<HashedPartialTrie>(&m)?, map: m };
        verify(&cp, f, "after building")?;
        let mut ks: Vec<Key> = cp.map.keys().cloned().collect();
        ks.shuffle(&mut c.rng);
        for (i, k) in ks.iter().enumerate() {
            let want = cp.map.remove(k);
            check_eq!(cp.trie.get(nib(k)).map(|v| v.to_vec()), want, "get({})", hex(k));
            let r = cp.trie.delete(nib(k)).map_err(|e| format!("delete: {e}"))?;
            check_eq!(r, want, "delete({})", hex(k));
            check!(cp.trie.get(nib(k)).is_none(), "get after delete({})", hex(k));
            if i % 500 == 0 {
                verify(&cp, f, "while deleting")?;
                canonical(&cp.trie, true)?;
                c.distinct((&cp.map, f));
            }
            c.eval();
        }
        check!(matches!(*cp.trie, mpt_trie::partial_trie::Node::Empty), "the trie is not empty after every key was deleted");
        c.count("emptied", 1);
        Ok(())
    });
}
