//! The sparse Merkle tree is a map with a canonical root.

use alloy::primitives::U256;
use plonky2::field::types::PrimeField64;
use smt_trie::db::MemoryDb;
use smt_trie::smt::Smt;
use vh_core::*;

use crate::model::*;

pub fn smt_root(s: &Smt<MemoryDb>) -> H {
    s.root.elements.map(|x| x.to_canonical_u64())
}

fn history(c: &mut Case, steps: usize) -> R {
    let g = Gen::new(c);
    let np = 1 + c.below(if steps > 30 { 60 } else { 8 });
    let pool: Vec<K> = (0..np).map(|_| g.key(c)).collect();
    let mut copies = vec![(Smt::<MemoryDb>::default(), Map::new())];
    c.log(|| format!("family {}", g.name()));
    let fam = g.name();
    let fam = fam.split('(').next().unwrap().to_string();
    for step in 0..steps {
        let n = c.below(copies.len());
        let room = copies.len() < 3;
        let k = if c.chance(0.8) { *pool.choose(&mut c.rng).unwrap() } else { g.key(c) };
        let what = c.below(20);
        let (s, m) = &mut copies[n];
        let before = smt_root(s);
        match what {
            0..=8 => {
                let v = if c.chance(0.2) && !m.is_empty() { *m.values().next().unwrap() } else { value(c) };
                c.log(|| format!("#{n} set({k:x?}, {v:#x})"));
                s.set(key(&k), v);
                m.insert(k, v);
                c.count("set", 1);
            }
            9..=11 => {
                c.log(|| format!("#{n} set({k:x?}, 0)"));
                s.set(key(&k), U256::ZERO);
                let was = m.remove(&k);
                c.count(if was.is_some() { "remove" } else { "remove-absent" }, 1);
            }
            12..=14 => {
                let k = if !m.is_empty() && c.chance(0.7) { *m.keys().nth(c.rng.gen_range(0..m.len())).unwrap() } else { k };
                c.log(|| format!("#{n} delete({k:x?})"));
                s.delete(key(&k));
                let was = m.remove(&k);
                c.count(if was.is_some() { "remove" } else { "remove-absent" }, 1);
            }
            15..=17 => {
                c.log(|| format!("#{n} get({k:x?})"));
                check_eq!(s.get(key(&k)), m.get(&k).copied().unwrap_or_default(), "get({k:x?})");
                check_eq!(smt_root(s), before, "root after get");
                c.count("get", 1);
            }
            18 if room => {
                c.log(|| format!("clone of #{n}"));
                let x = copies[n].clone();
                copies.push(x);
                c.count("clone", 1);
                continue;
            }
            _ => {
                // Set, then undo.
                let v = value(c);
                c.log(|| format!("#{n} set({k:x?}, {v:#x}) and back"));
                s.set(key(&k), v);
                s.set(key(&k), m.get(&k).copied().unwrap_or_default());
                check_eq!(smt_root(s), before, "root after a change of {k:x?} that was undone");
                c.count("undo", 1);
            }
        }
        if steps <= 30 || step % 16 == 0 || step + 1 == steps {
            for (i, (s, m)) in copies.iter().enumerate() {
                let want = root(m);
                check_eq!(smt_root(s), want, "root of copy {i} after step {step} (on copy {n}) with {} keys", m.len());
                c.eval();
                let kv: std::collections::BTreeMap<K, U256> = s.kv_store.iter().map(|(k, v)| (unkey(k), *v)).collect();
                check!(kv == *m, "kv_store of copy {i} differs from the contents: {kv:x?} vs {m:x?}");
                for k in m.keys().take(6).chain(pool.iter().take(4)) {
                    check_eq!(s.get(key(k)), m.get(k).copied().unwrap_or_default(), "get({k:x?}) in copy {i}");
                    c.eval();
                }
                let ks: Vec<&K> = m.keys().take(12).collect();
                let deep = ks.windows(2).map(|w| lcp(w[0], w[1])).max().unwrap_or(0);
                c.distinct((&want, deep));
                if deep > 200 {
                    c.count("deep-collision", 1);
                }
            }
        }
    }
    c.count(&format!("family-{fam}"), 1);
    c.sample(|| format!("{fam}: {} keys, root {:x?}", copies[0].1.len(), smt_root(&copies[0].0)));
    Ok(())
}

/// The same contents, from different histories.
fn orders(c: &mut Case) -> R {
    let g = Gen::new(c);
    let n = 1 + c.below(24);
    let kv: Map = (0..n).map(|_| (g.key(c), value(c))).collect();
    let extra: Vec<K> = (0..c.below(10)).map(|_| g.key(c)).filter(|k| !kv.contains_key(k)).collect();
    let want = root(&kv);
    for _ in 0..3 {
        let mut ops: Vec<(K, U256)> = kvs(&kv);
        ops.extend(extra.iter().map(|k| (*k, U256::from(7))));
        ops.shuffle(&mut c.rng);
        let mut s = Smt::<MemoryDb>::default();
        for (k, v) in &ops {
            s.set(key(k), *v);
        }
        let mut ex = extra.clone();
        ex.shuffle(&mut c.rng);
        for k in &ex {
            s.set(key(k), U256::ZERO);
        }
        check_eq!(smt_root(&s), want, "root of {kv:x?} by the order {:x?}, with {extra:x?} there for a while", ops.iter().map(|o| o.0).collect::<Vec<_>>());
        c.eval();
        c.count("order", 1);
        c.distinct((want, &ops));
    }
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("a case is a history of set/set 0/delete/get/clone/undo over a family of keys (random, dense, sharing up to 254 bits); after every step the root of every copy is compared with the root computed from the definition over a map, and get and kv_store with the map; distinct: (root, deepest shared path)");
    c.assume("Poseidon itself (plonky2) is trusted");
    let n = c.n(4000, 60000);
    c.stage("history", n, |c| {
        let s = 1 + c.below(30);
        history(c, s)
    });
    c.stage("long", n / 40, |c| history(c, 300));
    c.stage("orders", n, orders);
    for k in ["set", "remove", "remove-absent", "get", "clone", "undo", "order", "deep-collision"] {
        c.require(k, 100);
    }
}
