use ethereum_types::U256;
use evm_arithmetization::prover::testing::simulate_execution;
use evm_arithmetization::SegmentDataIterator;
use vh_core::*;

use crate::block::*;
use crate::gen::*;
use crate::refevm::*;

/// Why the code under test refused the reference result.
pub fn diagnose(b: &Batch) -> String {
    let i = b.inputs();
    let mut s = String::new();
    for seg in SegmentDataIterator::<F>::new(&i, None) {
        if let Err(e) = seg {
            s += &format!("{:#}; ", e.inner).chars().take(160).collect::<String>();
            if let Some(t) = e.tries {
                use mpt_trie::partial_trie::PartialTrie;
                let want = to_trie(&state_map(&b.after));
                if t.state_trie.hash() != want.hash() {
                    s += "STATE: ";
                    for (a, x) in &b.after {
                        let k = hash_nibbles(keccak_hash::keccak(a.0));
                        let got = t.state_trie.get(k).map(|v| rlp::decode::<evm_arithmetization::generation::mpt::AccountRlp>(v));
                        let root = mpt_trie_root(&x.storage);
                        match got {
                            Some(Ok(g)) => {
                                if g.nonce != x.nonce.into() || g.balance != x.balance || g.storage_root != root || g.code_hash != keccak_hash::keccak(&*x.code) {
                                    s += &format!("{a:?}: got {g:?} want nonce {} balance {} root {root:?} code {} storage {:?}; ", x.nonce, x.balance, x.code.len(), x.storage);
                                }
                            }
                            o => s += &format!("{a:?}: got {o:?} want {x:?}; "),
                        }
                    }
                    let want: std::collections::BTreeSet<_> = b.after.keys().map(|a| hash_nibbles(keccak_hash::keccak(a.0))).collect();
                    for (k, _) in t.state_trie.items() {
                        if !want.contains(&k) {
                            s += &format!("unexpected account {k:?}; ");
                        }
                    }
                }
                let want = index_map(&b.receipts);
                if t.receipt_trie.hash() != to_trie(&want).hash() {
                    s += "RECEIPTS: ";
                    for (k, v) in &want {
                        let got = t.receipt_trie.get(crate::model::nib(k)).map(|x| x.to_vec());
                        if got.as_ref() != Some(v) {
                            s += &format!("{k:?}: got {} want {}; ", got.map_or("none".into(), |g| short(&g)), short(v));
                        }
                    }
                }
            }
            break;
        }
    }
    s
}
fn short(r: &[u8]) -> String {
    match evm_arithmetization::generation::mpt::decode_receipt(r) {
        Ok((_, t, x)) => format!("(type {t} status {} cum {} logs {:?})", x.status, x.cum_gas_used, x.logs),
        Err(_) => format!("{r:x?}"),
    }
}
fn mpt_trie_root(s: &std::collections::BTreeMap<U256, U256>) -> ethereum_types::H256 {
    crate::model::spec_root(&storage_map(s))
}

pub fn accept(c: &mut Case, b: &Batch) -> R {
    let i = b.inputs();
    c.eval();
    if let Ok(f) = std::env::var("VH_DUMP") {
        std::fs::write(f, serde_json::to_string(&i).unwrap()).unwrap();
    }
    if let Err(e) = simulate_execution(i) {
        return Err(format!("transactions {}..{} of the block: the reference result is refused: {}; {}", b.first, b.txs.len(), format!("{e:#}").chars().take(100).collect::<String>(), diagnose(b)));
    }
    Ok(())
}

pub fn count_stats(c: &mut Case, s: &Stats) {
    for (k, n) in &s.events {
        c.count(k, *n);
    }
    c.count("EVM instructions", s.steps);
    for (o, n) in &s.ops {
        c.count(&format!("opcode {o:02x}"), *n);
    }
}

pub fn describe(b: &[Batch]) -> String {
    let mut s = String::new();
    for x in b {
        s += &format!("[txs {}..{} gas {}..{} logs {}] ", x.first, x.txs.len(), x.gas_before, x.gas_after, x.logs);
    }
    for (a, x) in &b[0].before {
        s += &format!("{a:?}: nonce {} bal {} code {} st {:?}\n", x.nonce, x.balance, x.code.iter().map(|b| format!("{b:02x}")).collect::<String>(), x.storage);
    }
    for t in &b.last().unwrap().txs {
        s += &format!("tx {}\n", t.iter().map(|b| format!("{b:02x}")).collect::<String>());
    }
    s
}

const RULE: &str = "one evaluation = one batch of transactions run by the kernel (the real one, interpreted) against the state root, receipts, logs, bloom and gas that the reference EVM determined";

pub fn run(k: &mut Check) {
    k.rule(RULE);
    k.assume("the reference EVM in /verif (written from the Yellow Paper and the EIPs of Cancun) is right; it shares no code with the repository");
    for (e, n) in [("transaction succeeded", 500), ("transaction failed", 300), ("exception", 1000), ("revert", 100), ("contract created", 150), ("create collision", 30), ("selfdestruct of an older contract", 100), ("selfdestruct in the creating transaction", 30), ("static violation", 30), ("refund", 80), ("message call", 1500), ("opcode 5c", 200), ("opcode 20", 500), ("opcode 40", 200)] {
        k.require(e, n);
    }
    let n = k.n(600, 20000);
    k.stage("blocks", n, |c| {
        let st = Style { fault: pick(c, &[0.0, 0.02, 0.1]), precompiles: false };
        let (bs, stats) = gen_block(c, st, 3);
        c.log(|| describe(&bs));
        count_stats(c, &stats);
        for b in &bs {
            accept(c, b)?;
            c.distinct((b.gas_after, b.roots_after().state_root));
            c.sample(|| format!("{} transactions, gas {}, state root {:?}", b.txs.len() - b.first, b.gas_after - b.gas_before, b.roots_after().state_root));
        }
        Ok(())
    });
    let n = k.n(360, 12000);
    k.stage("scenarios", n, |c| {
        let which = c.index % crate::scenario::NAMES.len();
        let (bs, stats) = crate::scenario::play(c, which);
        c.log(|| describe(&bs));
        count_stats(c, &stats);
        for b in &bs {
            accept(c, b)?;
            c.distinct((b.gas_after, b.roots_after().state_root));
            c.sample(|| format!("{} transactions, gas {}, state root {:?}", b.txs.len() - b.first, b.gas_after - b.gas_before, b.roots_after().state_root));
        }
        Ok(())
    });
}
