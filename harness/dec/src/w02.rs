use std::collections::BTreeSet;

use ethereum_types::{H256, U256};
use evm_arithmetization::prover::testing::simulate_execution;
use evm_arithmetization::world::World as _;
use evm_arithmetization::GenerationInputs;
use keccak_hash::keccak;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use trace_decoder::observer::TriesObserver;
use trace_decoder::{entrypoint, BlockTrace, ContractCodeUsage, OtherBlockData, WireDisposition};
use vh_core::*;
use vh_evm::block::*;
use vh_evm::gen::pick;
use vh_evm::model::{node_root, spec_root, unnib};
use vh_evm::refevm::{self, beacon_address, World};

use crate::blk::*;
use crate::tree::*;

/// The node that ends the way to `key`: where it starts, and what it is.
fn end_of<'a>(t: &'a HashedPartialTrie, key: &[u8]) -> (usize, &'a Node<HashedPartialTrie>) {
    fn go<'a>(n: &'a Node<HashedPartialTrie>, key: &[u8], at: usize) -> (usize, &'a Node<HashedPartialTrie>) {
        match n {
            Node::Branch { children, .. } if at < key.len() => go(&children[key[at] as usize], key, at + 1),
            Node::Extension { nibbles, child } if key[at..].starts_with(&unnib(nibbles)) => go(child, key, at + unnib(nibbles).len()),
            _ => (at, n),
        }
    }
    go(t, key, 0)
}
/// What the trie says at `key`: None if that is hidden.
pub fn lookup(t: &HashedPartialTrie, key: &[u8]) -> Option<Option<Vec<u8>>> {
    let (at, n) = end_of(t, key);
    match n {
        Node::Hash(_) => None,
        Node::Leaf { nibbles, value } if unnib(nibbles) == key[at..] => Some(Some(value.clone())),
        _ => Some(None),
    }
}
/// Leaves that are seen, with where each node starts.
fn leaves(n: &Node<HashedPartialTrie>, at: &mut Nibs, out: &mut Vec<(usize, Nibs)>) {
    let k = at.len();
    match n {
        Node::Branch { children, .. } => {
            for (i, c) in children.iter().enumerate() {
                at.push(i as u8);
                leaves(c, at, out);
                at.pop();
            }
        }
        Node::Extension { nibbles, child } => {
            at.extend(unnib(nibbles));
            leaves(child, at, out);
        }
        Node::Leaf { nibbles, .. } => {
            at.extend(unnib(nibbles));
            out.push((k, at.clone()));
        }
        _ => {}
    }
    at.truncate(k);
}

pub fn decode(t: BlockTrace, o: OtherBlockData, hint: usize) -> R<(Vec<GenerationInputs>, TriesObserver<evm_arithmetization::world::Type1World>)> {
    if let Ok(f) = std::env::var("VH_DUMP") {
        std::fs::write(f, serde_json::to_string(&(&t, &o, hint)).unwrap()).unwrap();
    }
    let mut ob = TriesObserver::new();
    let v = entrypoint(t, o, hint, &mut ob, WireDisposition::Type1).map_err(|e| format!("the block is refused: {e:#}"))?;
    Ok((v, ob))
}

fn root(w: &World) -> H256 {
    spec_root(&state_map(w))
}

pub fn one(c: &mut Case) -> R {
    let b = gen_blk(c)?;
    play(c, b)
}
pub fn gone(c: &mut Case) -> R {
    let b = gone_blk(c)?;
    play(c, b)
}
fn play(c: &mut Case, b: Blk) -> R {
    let n = b.txs.len();
    let hint = match c.below(4) {
        0 => 1,
        1 => 100,
        _ => 1 + c.below(n + 1),
    };
    let form = Form { direct: c.chance(0.5), pruned: c.chance(0.7), near: b.shrinks() || c.chance(0.5) };
    c.log(|| format!("hint {hint} {form:?}\n{}", b.describe()));
    let trace = b.trace(c, form);
    let other = b.other(c);
    let (trace, other) = if c.chance(0.2) {
        c.count("through JSON", 1);
        let s = serde_json::to_string(&trace).unwrap();
        let o = serde_json::to_string(&other).unwrap();
        (serde_json::from_str(&s).map_err(|e| format!("JSON: {e}"))?, serde_json::from_str(&o).map_err(|e| format!("JSON: {e}"))?)
    } else {
        (trace, other)
    };
    let (gs, ob) = decode(trace, other.clone(), hint)?;
    judge(c, &b, hint, &other, &gs, &ob, 100)
}

pub fn long(c: &mut Case) -> R {
    let b = long_blk(c)?;
    let n = b.txs.len();
    let hint = pick(c, &[1usize, 7, 16, 50, 127, 128, 129, n - 1, n, n + 1, 1000]);
    let form = Form { direct: c.chance(0.5), pruned: c.chance(0.7), near: false };
    c.log(|| format!("hint {hint} {form:?}\n{}", b.describe()));
    let trace = b.trace(c, form);
    let other = b.other(c);
    let (gs, ob) = decode(trace, other.clone(), hint)?;
    judge(c, &b, hint, &other, &gs, &ob, 1)
}

pub fn judge(c: &mut Case, b: &Blk, hint: usize, other: &OtherBlockData, gs: &[GenerationInputs], ob: &TriesObserver<evm_arithmetization::world::Type1World>, runs: usize) -> R {
    let n = b.txs.len();
    let want = sizes(n, hint);
    check_eq!(gs.len(), want.len(), "number of batches of {n} transactions, {hint} at a time");
    let (raws, rcs) = (b.raws(), b.receipts());
    let mut first = 0;
    let mut prev: Option<evm_arithmetization::proof::TrieRoots> = None;
    for (i, (g, k)) in gs.iter().zip(&want).enumerate() {
        let last = (first + k).min(n);
        let txs = &b.txs[first.min(last)..last];
        let fin = i + 1 == gs.len();
        c.eval();
        c.count("batches", 1);
        if txs.is_empty() {
            c.count("dummy batches", 1);
        }
        let at = format!("batch {i} of {} (transactions {first}..{last} of {n})", gs.len());
        check_eq!(g.txn_number_before, first.into(), "{at}: first transaction");
        check_eq!(g.signed_txns, raws[first..last].to_vec(), "{at}: transactions");
        let gas = |k: usize| U256::from(if k == 0 { 0 } else { b.txs[k - 1].cum });
        check_eq!(g.gas_used_before, gas(first), "{at}: gas before");
        check_eq!(g.gas_used_after, gas(last), "{at}: gas after");
        let wd: Vec<_> = if fin { b.withdrawals.iter().map(|(a, v)| (*a, *v * 1_000_000_000u64)).collect() } else { vec![] };
        check_eq!(g.withdrawals, wd, "{at}: withdrawals");
        check_eq!(g.block_metadata, other.b_data.b_meta, "{at}: metadata");
        check_eq!(g.block_hashes, other.b_data.b_hashes, "{at}: block hashes");
        check_eq!(g.checkpoint_state_trie_root, other.checkpoint_state_trie_root, "{at}: checkpoint root");
        check_eq!(g.checkpoint_consolidated_hash, other.checkpoint_consolidated_hash, "{at}: checkpoint hash");
        check_eq!(g.burn_addr, other.burn_addr, "{at}: burn address");
        check_eq!(g.ger_data, other.ger_data, "{at}: global exit root");
        // the state before and after
        let before = if i == 0 { &b.start } else { b.state(first) };
        let after = if fin { &b.end } else { b.state(last) };
        check_eq!(g.tries.state_trie.hash(), root(before), "{at}: state root before");
        check_eq!(g.tries.transactions_trie.hash(), spec_root(&index_map(&raws[..first])), "{at}: transactions before");
        check_eq!(g.tries.receipts_trie.hash(), spec_root(&index_map(&rcs[..first])), "{at}: receipts before");
        check_eq!(node_root(&g.tries.state_trie), root(before), "{at}: state root before, not from a cache");
        if g.trie_roots_after.state_root != root(after) {
            let mut d = vec![];
            if let Some(o) = ob.data.get(i) {
                let t = o.tries.world.state_trie();
                for a in before.keys().chain(after.keys()).chain(txs.iter().flat_map(|t| &t.touched)).chain(b.withdrawals.iter().map(|x| &x.0)) {
                    let have = lookup(t, &path_of(&a.0));
                    if have != Some(after.get(a).map(account_rlp)) && d.len() < 3 {
                        d.push(format!("{a:?} is {:?}, specified {:?}", have.map(|x| x.map(|y| rlp::decode::<evm_arithmetization::generation::mpt::AccountRlp>(&y))), after.get(a).map(|x| (x.nonce, x.balance, x.code.len(), x.storage.len()))));
                    }
                }
            }
            return Err(format!("{at}: state root after: {d:?}; failed: {:?}", txs.iter().map(|t| !t.ok).collect::<Vec<_>>()));
        }
        check_eq!(g.trie_roots_after.transactions_root, spec_root(&index_map(&raws[..last])), "{at}: transactions after");
        check_eq!(g.trie_roots_after.receipts_root, spec_root(&index_map(&rcs[..last])), "{at}: receipts after");
        if let Some(p) = &prev {
            check_eq!(g.tries.state_trie.hash(), p.state_root, "{at}: continues from the batch before");
        }
        prev = Some(g.trie_roots_after.clone());
        // what is needed is there
        let mut need: BTreeSet<_> = txs.iter().flat_map(|t| t.touched.iter().copied()).collect();
        let mut slots: BTreeSet<_> = txs.iter().flat_map(|t| t.slots.iter().copied()).collect();
        if first == 0 {
            need.insert(beacon_address());
            let k = b.env.timestamp % 8191;
            slots.extend([(beacon_address(), k), (beacon_address(), k + 8191)]);
        }
        if fin {
            need.extend(b.withdrawals.iter().map(|x| x.0));
        }
        for a in &need {
            let Some(have) = lookup(&g.tries.state_trie, &path_of(&a.0)) else {
                return Err(format!("{at}: account {a:?} is needed, and left out of the state"));
            };
            check_eq!(have, before.get(a).map(account_rlp), "{at}: account {a:?}");
        }
        let storage: std::collections::HashMap<_, _> = g.tries.storage_tries.iter().map(|(h, t)| (*h, t)).collect();
        check_eq!(storage.len(), g.tries.storage_tries.len(), "{at}: storage tries for different accounts");
        for (a, s) in &slots {
            let x = acct_of(before, a);
            let Some(t) = storage.get(&keccak(a.0)) else {
                check!(x.storage.is_empty(), "{at}: the storage of {a:?} is needed, and left out");
                continue;
            };
            let Some(have) = lookup(t, &slot_path(*s)) else {
                return Err(format!("{at}: slot {s} of {a:?} is needed, and left out"));
            };
            check_eq!(have, x.storage.get(s).map(|v| int(*v)), "{at}: slot {s} of {a:?}");
        }
        for (a, x) in before {
            if let Some(t) = storage.get(&keccak(a.0)) {
                check_eq!(node_root(*t), spec_root(&storage_map(&x.storage)), "{at}: storage root of {a:?}");
            }
        }
        // code
        let mut code: BTreeSet<Vec<u8>> = [vec![]].into();
        for t in txs {
            for (a, x) in &t.traces {
                match &x.code_usage {
                    Some(ContractCodeUsage::Read(_)) => code.insert(acct_of(&t.before, a).code.to_vec()),
                    Some(ContractCodeUsage::Write(_)) => code.insert(acct_of(&t.after, a).code.to_vec()),
                    None => continue,
                };
            }
        }
        for (h, x) in &g.contract_code {
            check_eq!(*h, keccak(x), "{at}: the hash of a contract's code");
        }
        for x in &code {
            check!(g.contract_code.contains_key(&keccak(x)), "{at}: code {} is needed, and left out", hex::encode(x));
        }
        // and nothing else
        let shrink = |t: &Txn| t.traces.values().any(|x| x.self_destructed || x.storage_written.values().any(|v| v.is_zero()));
        if !txs.iter().any(shrink) && !(first == 0 && b.env.parent_root.is_zero()) {
            let mut seen = vec![];
            leaves(&g.tries.state_trie, &mut vec![], &mut seen);
            let need: BTreeSet<_> = need.iter().map(|a| path_of(&a.0)).collect();
            c.count("accounts shown", seen.len() as u64);
            for (k, p) in &seen {
                check!(seen.len() == 1 || need.iter().any(|x| x.starts_with(&p[..*k])), "{at}: account {} is shown without need", hex::encode(p));
            }
            for h in storage.keys() {
                check!(need.contains(&nibbles(&h.0)), "{at}: storage of {h:?} is there without need");
            }
            let extra: Vec<_> = g.contract_code.values().filter(|x| !code.contains(*x)).map(hex::encode).collect();
            check!(extra.is_empty(), "{at}: code is there without need: {extra:?}");
        }
        // the observer
        let o = ob.data.get(i).ok_or(format!("{at}: not observed"))?;
        check_eq!((o.block, o.batch), (b.env.number.into(), i), "{at}: observed block and batch");
        check_eq!(o.tries.world.clone().root(), g.trie_roots_after.state_root, "{at}: observed state");
        check_eq!(o.tries.transaction.root(), g.trie_roots_after.transactions_root, "{at}: observed transactions");
        check_eq!(o.tries.receipt.root(), g.trie_roots_after.receipts_root, "{at}: observed receipts");
        first = last;
    }
    check_eq!(ob.data.len(), gs.len(), "observations");
    // batches to execute: the last ones
    let runs = if want.iter().any(|k| *k > 8) { 0 } else { runs };
    for (i, g) in gs.iter().enumerate().rev().take(runs) {
        c.eval();
        c.count("batches executed", 1);
        if let Err(e) = simulate_execution(GenerationInputs { burn_addr: None, ..g.clone() }) {
            return Err(format!("batch {i} of {}: execution refuses it: {}", gs.len(), format!("{e:#}").chars().take(300).collect::<String>()));
        }
    }
    c.distinct((n, hint, gs.last().unwrap().trie_roots_after.state_root));
    c.count("transactions", n as u64);
    c.count("failed transactions", b.txs.iter().filter(|t| !t.ok).count() as u64);
    for t in &b.txs {
        for (a, x) in &t.traces {
            c.count("account traces", 1);
            let (p, q) = (t.before.contains_key(a), t.after.contains_key(a));
            c.count("accounts born", (!p && q) as u64);
            c.count("accounts born in a failed transaction", (!p && q && !t.ok) as u64);
            c.count("accounts destroyed", x.self_destructed as u64);
            c.count("slots deleted", x.storage_written.values().filter(|v| v.is_zero()).count() as u64);
            c.count("slots written", x.storage_written.values().filter(|v| !v.is_zero()).count() as u64);
            c.count("codes written", matches!(x.code_usage, Some(ContractCodeUsage::Write(_))) as u64);
        }
    }
    c.sample(|| format!("{n} transactions, {} batches, end {:?}", gs.len(), gs.last().unwrap().trie_roots_after.state_root));
    Ok(())
}

pub fn run(k: &mut Check) {
    k.rule("one evaluation = one batch that the decoder made of a block's trace, compared field by field with the reference, or executed by the kernel");
    k.assume("the reference EVM in /verif is right, and traces name every account and slot that a transaction looks at, as the documentation of the interface says");
    let n = k.n(400, 12000);
    k.stage("blocks", n, one);
    let n = k.n(120, 3000);
    k.stage("accounts that go", n, gone);
    for (e, n) in [
        ("batches", 1000),
        ("batches executed", 600),
        ("dummy batches", 100),
        ("account traces", 3000),
        ("accounts born", 300),
        ("accounts born in a failed transaction", 30),
        ("accounts destroyed", 100),
        ("accounts destroyed that were there", 60),
        ("accounts shown", 1500),
        ("failed transactions", 150),
        ("hidden nodes at the start", 3000),
        ("slots deleted", 150),
        ("slots written", 500),
        ("codes written", 40),
        ("through JSON", 50),
    ] {
        k.require(e, n);
    }
    let n = k.n(60, 1200);
    k.stage("long blocks", n, long);
}
#[allow(unused)]
fn unused(c: &mut Case) {
    let _ = pick(c, &[1]);
    let _: refevm::World;
}
