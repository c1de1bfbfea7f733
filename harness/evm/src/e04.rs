//! False statements about a block must not be provable.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use ethereum_types::{Address, H160, H256, U256};
use evm_arithmetization::generation::GenerationInputs;
use evm_arithmetization::prover::testing::simulate_execution;
use keccak_hash::keccak;
use mpt_trie::partial_trie::PartialTrie;
use vh_core::*;

use crate::block::*;
use crate::e01::*;
use crate::gen::*;
use crate::refevm::*;

/// True if the code under test accepts the statement.
pub fn accepted(c: &mut Case, i: GenerationInputs<F>) -> bool {
    c.eval();
    match catch_unwind(AssertUnwindSafe(|| simulate_execution(i))) {
        Ok(Ok(())) => true,
        Ok(Err(_)) => {
            c.count("refused with an error", 1);
            false
        }
        Err(_) => {
            c.count("refused with a panic", 1);
            false
        }
    }
}

fn some_block(c: &mut Case) -> (Vec<Batch>, Stats) {
    if c.chance(0.5) {
        let st = Style { fault: pick(c, &[0.0, 0.02]), precompiles: false };
        gen_block(c, st, 2)
    } else {
        let which = c.below(crate::scenario::NAMES.len());
        crate::scenario::play(c, which)
    }
}

/// Changes one fact of the state; false if it could not.
fn twist(c: &mut Case, w: &mut World) -> Option<&'static str> {
    let all: Vec<Address> = w.keys().copied().collect();
    let a = pick(c, &all);
    Some(match c.below(8) {
        0 => {
            w.get_mut(&a).unwrap().balance += U256::one() << c.below(90);
            "balance"
        }
        1 => {
            w.get_mut(&a).unwrap().nonce += 1 << c.below(20);
            "nonce"
        }
        2 => {
            let k = slot(c);
            let st = &mut w.get_mut(&a).unwrap().storage;
            if st.remove(&k).is_none() {
                st.insert(k, 1.into());
            }
            "a slot set or cleared"
        }
        3 => {
            let st = &mut w.get_mut(&a).unwrap().storage;
            let ks: Vec<U256> = st.keys().copied().collect();
            if ks.is_empty() {
                return None;
            }
            let k = ks[c.below(ks.len())];
            *st.get_mut(&k).unwrap() = st[&k].overflowing_add((1 + c.below(9)).into()).0;
            st.retain(|_, v| !v.is_zero());
            "a slot's value"
        }
        4 => {
            let x = w.get_mut(&a).unwrap();
            let mut v = x.code.to_vec();
            if v.is_empty() || c.chance(0.3) {
                v.push(0);
            } else {
                let i = c.below(v.len());
                v[i] ^= 1 << c.below(8);
            }
            x.code = Arc::new(v);
            "code"
        }
        5 => {
            w.remove(&a);
            "an account removed"
        }
        6 => {
            w.insert(H160(c.rng.gen()), Acct { balance: c.below(2).into(), ..Default::default() });
            "an account added"
        }
        _ => {
            let b = pick(c, &all);
            let x = w.get_mut(&a).unwrap();
            if a == b || x.balance.is_zero() {
                return None;
            }
            x.balance -= U256::one();
            w.get_mut(&b).unwrap().balance += U256::one();
            "balance moved"
        }
    })
}

fn twist_receipt(c: &mut Case, r: &mut Vec<u8>) -> Option<&'static str> {
    let (_, _, x) = evm_arithmetization::generation::mpt::decode_receipt(r).ok()?;
    let mut logs: Vec<Log> = x.logs.iter().map(|l| Log { addr: l.address, topics: l.topics.clone(), data: l.data.to_vec() }).collect();
    let (mut ok, mut cum, mut ty) = (x.status, x.cum_gas_used.as_u64(), if r[0] < 4 { r[0] } else { 0 });
    let mut bloom_too = true;
    let what = match c.below(7) {
        0 => {
            ok = !ok;
            "receipt status"
        }
        1 => {
            cum += 1 << c.below(16);
            "receipt gas"
        }
        2 => {
            if logs.pop().is_none() {
                logs.push(Log { addr: contract(0), topics: vec![], data: vec![] });
            }
            "receipt log count"
        }
        3 if !logs.is_empty() => {
            let k = c.below(logs.len());
            logs[k].data.push(0);
            "log data"
        }
        4 if !logs.is_empty() => {
            let k = c.below(logs.len());
            if logs[k].topics.is_empty() {
                logs[k].topics.push(H256::zero());
            } else {
                logs[k].topics[0].0[31] ^= 1;
            }
            "log topic"
        }
        5 => {
            bloom_too = false;
            "receipt bloom"
        }
        _ => {
            ty = if ty == 0 { 1 } else { 0 };
            "receipt type"
        }
    };
    let rc = Receipt { success: ok, gas_used: 0, logs };
    *r = encode_receipt(&rc, cum, ty);
    if !bloom_too {
        // flip a bit of the 256 byte string
        let at = r.windows(3).position(|w| w == [0xb9, 1, 0]).unwrap() + 3 + c.below(256);
        r[at] ^= 1 << c.below(8);
    }
    Some(what)
}

/// A true statement, changed in one place so that it is false.
fn claim(c: &mut Case) -> R {
    let (bs, stats) = some_block(c);
    let k = c.below(bs.len());
    let b = bs[k].clone();
    let mut i = b.inputs();
    let which = pick(c, &[0, 0, 0, 1, 1, 2, 3, 4, 5, 5, 6, 7, 7]);
    let what: String = match which {
        0 => {
            let mut w = b.after.clone();
            let Some(t) = twist(c, &mut w) else { return Ok(()) };
            i.trie_roots_after.state_root = spec_root_state(&w);
            format!("state after: {t}")
        }
        1 => {
            let mut rs = b.receipts.clone();
            if rs.len() == b.first {
                return Ok(());
            }
            let j = c.below(rs.len());
            let Some(t) = twist_receipt(c, &mut rs[j]) else { return Ok(()) };
            i.trie_roots_after.receipts_root = crate::model::spec_root(&index_map(&rs));
            format!("receipts: {t}")
        }
        2 => {
            let mut ts = b.txs.clone();
            let Some(t) = ts.last_mut() else { return Ok(()) };
            let n = t.len();
            t[n - 1 - c.below(60)] ^= 1 << c.below(8);
            i.trie_roots_after.transactions_root = crate::model::spec_root(&index_map(&ts));
            "transactions root".into()
        }
        3 => {
            i.gas_used_after = i.gas_used_after + pick(c, &[1u64, 2300, 1 << 32]);
            "gas used after, too high".into()
        }
        4 => {
            if i.gas_used_after.is_zero() {
                return Ok(());
            }
            i.gas_used_after = i.gas_used_after - 1;
            "gas used after, too low".into()
        }
        5 => {
            // another block environment, for which the reference has another result
            let mut env = b.env.clone();
            let what = match c.below(8) {
                0 => {
                    env.coinbase = H160(c.rng.gen());
                    "coinbase"
                }
                1 => {
                    env.timestamp += 1.into();
                    "timestamp"
                }
                2 => {
                    env.number += 1;
                    "number"
                }
                3 => {
                    env.base_fee += 1.into();
                    "base fee"
                }
                4 => {
                    env.chain_id += 1;
                    "chain id"
                }
                5 => {
                    env.parent_root = H256(c.rng.gen());
                    "parent beacon root"
                }
                6 => {
                    env.random = H256(c.rng.gen());
                    "prev_randao"
                }
                _ => {
                    for h in &mut env.prev_hashes {
                        *h = H256(c.rng.gen());
                    }
                    "block hashes"
                }
            };
            let seen = |o: u8| stats.ops.contains_key(&o);
            let matters = match what {
                "coinbase" | "base fee" => b.after != b.before && b.txs.len() > b.first && b.gas_after > b.gas_before,
                "chain id" => b.txs.len() > b.first && b.txs[b.first..].iter().any(|t| t[0] < 0x80),
                "timestamp" | "parent beacon root" => b.first == 0,
                // observable only by programs
                _ => false,
            };
            if !matters {
                let _ = seen;
                return Ok(());
            }
            i.block_metadata = metadata(&env, b.gas_after, &b.block_bloom);
            i.block_hashes.prev_hashes = env.prev_hashes;
            if what == "coinbase" && spec_root_state(&b.after) == spec_root_state(&b.before) {
                return Ok(());
            }
            if (what == "coinbase" || what == "base fee") && !pays(&b) {
                return Ok(());
            }
            format!("block {what}")
        }
        6 => {
            let add = (H160(c.rng.gen()), U256::from(1 + c.below(5)));
            if !i.withdrawals.is_empty() && c.chance(0.5) {
                let j = c.below(i.withdrawals.len());
                i.withdrawals[j].1 += U256::one();
            } else {
                i.withdrawals.push(add);
            }
            "withdrawals".into()
        }
        _ => {
            i.txn_number_before += U256::one();
            if b.txs.len() == b.first {
                return Ok(());
            }
            "transaction number".into()
        }
    };
    c.log(|| format!("{what}\n{}", describe(&bs)));
    c.count(&format!("false claim: {what}"), 1);
    c.count("false claims", 1);
    c.distinct((&what, c.index));
    check!(!accepted(c, i), "a false statement was accepted: {what}");
    if c.index % 4 == 0 {
        // the true one is accepted
        accept(c, &b)?;
    }
    Ok(())
}
/// Whether fees reach the coinbase for sure (its balance shows the base fee too).
fn pays(b: &Batch) -> bool {
    let bal = |w: &World| w.get(&b.env.coinbase).map_or(U256::zero(), |a| a.balance);
    bal(&b.after) > bal(&b.before) && !b.after.get(&b.env.coinbase).is_some_and(|a| !a.code.is_empty())
}
pub fn spec_root_state(w: &World) -> H256 {
    crate::model::spec_root(&state_map(w))
}

/// The witness holds code or storage that is not what the state commits to.
fn witness(c: &mut Case) -> R {
    let env = gen_env(c);
    let mut w = World::new();
    w.insert(beacon_address(), Acct { nonce: 1, code: Arc::new(beacon_code()), ..Default::default() });
    for k in keys() {
        w.insert(k.addr, Acct { nonce: 1, balance: U256::exp10(20), ..Default::default() });
    }
    let x = contract(0);
    let mut a = Asm::default();
    a.push(5).op(0x54).push(1).op(0x55);
    a.push(pick(c, &[3u64, 4])).push(2).op(0x55).op(0x00);
    let code = a.finish();
    let mut storage = std::collections::BTreeMap::new();
    storage.insert(5.into(), U256::from(77));
    if c.chance(0.5) {
        storage.insert(6.into(), U256::from(78));
    }
    let real = Acct { nonce: 1, balance: 1.into(), code: Arc::new(code), storage };
    let mut forged = real.clone();
    let what = match c.below(5) {
        0 => {
            let mut v = forged.code.to_vec();
            let at = v.len() - 5;
            v[at] = 9; // the pushed value
            forged.code = Arc::new(v);
            "code with another byte"
        }
        1 => {
            let mut v = vec![0x60, 1, 0x60, 9, 0x55];
            v.extend(forged.code.iter());
            forged.code = Arc::new(v);
            "longer code"
        }
        2 => {
            forged.storage.insert(5.into(), 78.into());
            "another slot value"
        }
        3 => {
            forged.storage.remove(&5.into());
            "a slot left out"
        }
        _ => {
            forged.balance = U256::exp10(18);
            "another balance"
        }
    };
    w.insert(x, forged.clone());
    let tx = Tx {
        ty: 2,
        sender: keys()[0].addr,
        nonce: 1,
        max_fee: env.base_fee + 1,
        max_prio: 1.into(),
        gas: 200_000,
        to: Some(x),
        value: 0.into(),
        data: vec![],
        access_list: vec![],
        blob_hashes: vec![],
        max_blob_fee: 0.into(),
    };
    let mut stats = Stats::default();
    let ins = vec![TxIn { raw: encode_tx(&tx, &keys()[0], env.chain_id, true), tx }];
    let b = run_block(&mut w, &env, vec![ins], vec![], &mut stats, &|_| None).remove(0);
    check!(stats.ops.contains_key(&0x54), "harness: the contract did not run");
    if c.index % 4 == 0 {
        accept(c, &b)?;
    }
    let mut i = b.inputs();
    // what the state really commits to
    let mut before = b.before.clone();
    before.insert(x, real.clone());
    if what.contains("balance") {
        let f = i.tries.state_trie.hash();
        i.tries.state_trie = to_trie(&state_map(&before));
        check!(f != i.tries.state_trie.hash(), "harness: no change");
    } else {
        i.tries.state_trie = to_trie(&state_map(&before));
        if what.contains("code") {
            i.contract_code.remove(&keccak(&*forged.code));
            i.contract_code.insert(keccak(&*real.code), forged.code.to_vec());
            let mut m = state_map(&b.after);
            let y = &b.after[&x];
            let key = {
                let h = keccak(x.0);
                h.0.iter().flat_map(|v| [v >> 4, v & 15]).collect::<Vec<u8>>()
            };
            let mut y2 = y.clone();
            y2.code = real.code.clone();
            m.insert(key, account_rlp(&y2));
            i.trie_roots_after.state_root = crate::model::spec_root(&m);
        }
    }
    c.count(&format!("forged witness: {what}"), 1);
    c.count("forged witnesses", 1);
    c.distinct((what, c.index));
    check!(!accepted(c, i), "a statement that follows only from a forged witness was accepted: {what}");
    Ok(())
}

pub const INVALID: [&str; 23] = [
    "nonce too low", "nonce too high", "gas below intrinsic", "block gas limit", "max fee below base fee",
    "priority fee above max fee", "initcode too long", "sender has code", "another chain id (legacy)",
    "another chain id (typed)", "high s", "zero r", "bad v (legacy)", "bad parity (typed)", "blob without hashes", "blob fee too low",
    "blob creation", "value above balance", "leading zero in an integer", "trailing byte", "access list gas", "s is zero", "nonce of a blob transaction",
];

/// A transaction that may not be in a block, with the result that it would have.
fn invalid(c: &mut Case) -> R {
    let which = c.index % INVALID.len();
    let name = INVALID[which];
    let mut env = gen_env(c);
    env.coinbase = Address::from_low_u64_be(0xbeef_0000_0001);
    if env.base_fee.is_zero() {
        env.base_fee = 7.into();
    }
    let mut w = World::new();
    w.insert(beacon_address(), Acct { nonce: 1, code: Arc::new(beacon_code()), ..Default::default() });
    let key = &keys()[0];
    w.insert(key.addr, Acct { nonce: 5, balance: U256::exp10(20), ..Default::default() });
    let x = contract(0);
    let mut a = Asm::default();
    a.push(9).push(1).op(0x55).op(0x00);
    w.insert(x, Acct { nonce: 1, code: Arc::new(a.finish()), ..Default::default() });
    let ty = match which {
        8 | 12 => 0,
        9 | 13 => pick(c, &[1u8, 2]),
        5 => 2,
        14..=16 | 22 => 3,
        20 => pick(c, &[1u8, 2]),
        _ => pick(c, &[0u8, 1, 2]),
    };
    let max_fee = env.base_fee + 3;
    let mut tx = Tx {
        ty,
        sender: key.addr,
        nonce: 5,
        max_fee,
        max_prio: if ty < 2 { max_fee } else { 1.into() },
        gas: 100_000,
        to: if c.chance(0.7) { Some(x) } else { Some(ghost(0)) },
        value: 0.into(),
        data: vec![],
        access_list: vec![],
        blob_hashes: vec![],
        max_blob_fee: 0.into(),
    };
    if ty == 3 {
        let mut h: [u8; 32] = c.rng.gen();
        h[0] = 1;
        tx.blob_hashes = vec![H256(h)];
        tx.max_blob_fee = env.blob_base_fee();
    }
    let mut prefix = Prefix::default();
    let mut chain = env.chain_id;
    let mut force = "";
    let mut patch = 0;
    match which {
        0 => {
            tx.nonce = pick(c, &[4u64, 0]);
            force = "nonce"
        }
        1 => {
            tx.nonce = pick(c, &[6u64, 7, 1 << 40]);
            force = "nonce"
        }
        2 => {
            tx.to = pick(c, &[Some(ghost(0)), Some(key.addr), None]);
            tx.data = vec![1; c.below(3)];
            tx.gas = intrinsic(&tx) - pick(c, &[1u64, 100]);
            force = "intrinsic gas"
        }
        3 => {
            prefix = crate::scenario::late(c);
            env.gas_limit = prefix.gas + tx.gas - pick(c, &[1u64, 50]);
            force = "block gas limit"
        }
        4 => {
            tx.max_fee = env.base_fee - 1;
            tx.max_prio = if ty < 2 { tx.max_fee } else { 0.into() };
            force = "fee"
        }
        5 => {
            tx.max_prio = tx.max_fee + pick(c, &[1u64, 1 << 40]);
            force = "fee"
        }
        6 => {
            tx.to = None;
            tx.data = vec![0; 2 * 24576 + 1 + c.below(40)];
            tx.gas = 2_000_000;
            force = "initcode too long"
        }
        7 => {
            w.get_mut(&key.addr).unwrap().code = Arc::new(vec![0x60; 1 + c.below(40)]);
            force = "sender has code"
        }
        8 | 9 => chain += 1,
        10 => patch = 1,
        11 => patch = 2,
        12 | 13 => patch = 3,
        14 => {
            tx.blob_hashes.clear();
            force = "blob"
        }
        15 => {
            env.excess_blob_gas = 50_000_000;
            tx.max_blob_fee = env.blob_base_fee() - 1;
            force = "blob"
        }
        16 => {
            tx.to = None;
            tx.data = vec![];
            force = "blob"
        }
        17 => {
            tx.value = U256::exp10(20) + 1;
            force = "none"
        }
        18 => patch = 4,
        19 => patch = 5,
        20 => {
            tx.access_list = vec![(ghost(1), vec![1.into(), 2.into()]), (ghost(1), vec![])];
            tx.gas = intrinsic(&tx) - 1;
            tx.to = Some(ghost(0));
            force = "intrinsic gas"
        }
        21 => patch = 6,
        _ => {
            tx.nonce = pick(c, &[4u64, 6]);
            force = "nonce"
        }
    }
    let raw = match patch {
        0 => encode_tx(&tx, key, chain, true),
        n => encode_patched(c, &tx, key, chain, n),
    };
    let before = w.clone();
    let mut stats = Stats { force, ..Default::default() };
    let b = run_block_after(prefix.clone(), &mut w, &env, vec![vec![TxIn { raw: raw.clone(), tx: tx.clone() }]], vec![], &mut stats, &|_| None).remove(0);
    c.log(|| format!("{name}: {tx:?}"));
    c.count(&format!("invalid: {name}"), 1);
    c.count("invalid transactions", 1);
    c.distinct((name, c.index));
    if which != 17 {
        check!(b.txs.len() == b.first + 1, "harness: not forced: {name}");
        if !force.is_empty() {
            check!(stats.forced, "harness: {name} is valid: {tx:?}");
        }
        let known = if name == "trailing byte" { "[trailing byte] " } else { "" };
        check!(!accepted(c, b.inputs()), "{known}a transaction that is not valid was accepted, and executed: {name}");
    }
    // as if it had not happened, with and without being in the list
    let mut none = before;
    if prefix.txs.is_empty() {
        beacon_update(&mut none, &env);
    }
    let mut b2 = b.clone();
    b2.after = none;
    b2.gas_after = b2.gas_before;
    b2.receipts = prefix.receipts.clone();
    b2.txs = prefix.txs.clone();
    if which >= 14 && which <= 16 || tx.ty == 3 {
        // the sender may not have been charged for it either
        let mut b3 = b2.clone();
        let blob: U256 = env.blob_base_fee() * U256::from(131072 * tx.blob_hashes.len());
        if !blob.is_zero() {
            b3.after.get_mut(&key.addr).unwrap().balance -= blob;
            b3.txs.push(raw.clone());
            b3.receipts.push(encode_receipt(&Receipt { success: false, gas_used: 0, logs: vec![] }, b3.gas_after, 3));
            check!(!accepted(c, b3.inputs()), "[blob fee of an invalid transaction] a blob transaction that is not valid was charged for its blobs: {name}");
        }
    }
    let mut i = b2.inputs();
    i.signed_txns = vec![raw.clone()];
    if c.chance(0.5) {
        let mut t = prefix.txs.clone();
        t.push(raw.clone());
        i.trie_roots_after.transactions_root = crate::model::spec_root(&index_map(&t));
    }
    check!(!accepted(c, i), "a transaction that is not valid was accepted, and skipped: {name}");
    // the same block with a valid one
    if c.index % 5 == 0 && matches!(which, 0 | 1 | 4 | 5 | 8..=15 | 18 | 19 | 21 | 22) {
        let mut w = b.before.clone();
        tx.nonce = 5;
        tx.max_fee = env.base_fee + 3;
        tx.max_prio = tx.max_fee;
        if tx.ty == 3 {
            tx.blob_hashes = vec![H256::from_low_u64_be(1)];
            tx.blob_hashes[0].0[0] = 1;
            tx.max_blob_fee = env.blob_base_fee();
        }
        let raw = encode_tx(&tx, key, env.chain_id, true);
        let b = run_block_after(prefix, &mut w, &env, vec![vec![TxIn { raw, tx }]], vec![], &mut Stats::default(), &|_| None).remove(0);
        check!(b.txs.len() == b.first + 1, "harness: valid control is not valid");
        accept(c, &b)?;
    }
    Ok(())
}

/// Changes the encoding or the signature.
fn encode_patched(c: &mut Case, tx: &Tx, key: &crate::refcrypto::Key, chain: u64, how: u8) -> Vec<u8> {
    let raw = encode_tx(tx, key, chain, true);
    let (head, body) = if tx.ty == 0 { (vec![], raw.clone()) } else { (vec![raw[0]], raw[1..].to_vec()) };
    let r = rlp::Rlp::new(&body);
    let mut items: Vec<Vec<u8>> = r.iter().map(|x| x.as_raw().to_vec()).collect();
    let n = items.len();
    let order = num_bigint::BigUint::parse_bytes(b"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap();
    match how {
        1 => {
            let s = num_bigint::BigUint::from_bytes_be(&rlp::Rlp::new(&items[n - 1]).as_val::<Vec<u8>>().unwrap());
            items[n - 1] = int(U256::from_big_endian(&(order - s).to_bytes_be()));
            // the other parity: the same sender
            let v: u64 = rlp::Rlp::new(&items[n - 3]).as_val().unwrap();
            let v = if tx.ty == 0 {
                let base = 35 + 2 * chain;
                base + (1 - (v - base))
            } else {
                1 - v
            };
            items[n - 3] = num(v);
        }
        2 => items[n - 2] = num(0),
        3 => {
            let v: u64 = rlp::Rlp::new(&items[n - 3]).as_val().unwrap();
            items[n - 3] = num(if tx.ty == 0 { pick(c, &[0, 1, 26, 29, 34]) } else { v + 2 });
        }
        4 => {
            // gas limit (value is often zero)
            let at = match tx.ty {
                0 => 2,
                1 => 3,
                _ => 4,
            };
            let g: u64 = rlp::Rlp::new(&items[at]).as_val().unwrap();
            let b = g.to_be_bytes();
            let k = b.iter().position(|x| *x != 0).unwrap();
            items[at] = crate::model::rlp_str(&b[k - 1..]);
        }
        6 => items[n - 1] = num(0),
        _ => {}
    }
    let mut out = head;
    out.extend(crate::model::rlp_list(&items));
    if how == 5 {
        out.push(c.rng.gen());
    }
    out
}

pub fn run(k: &mut Check) {
    k.rule("one evaluation = one statement about a block given to the kernel; false ones must be refused");
    k.require("false claims", 250);
    k.require("forged witnesses", 60);
    k.require("invalid transactions", 150);
    let n = k.n(400, 12000);
    k.stage("claims", n, claim);
    let n = k.n(80, 2000);
    k.stage("witness", n, witness);
    let n = k.n(230, 4600);
    k.stage("invalid", n, invalid);
}
