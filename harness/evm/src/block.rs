//! Blocks: transactions encoded and signed, run on the reference EVM, and
//! turned into the inputs of the code under test. Roots, receipts and blooms
//! are computed here, from their definitions.
use std::collections::{BTreeMap, HashMap};

use ethereum_types::{Address, H256, U256};
use evm_arithmetization::generation::{GenerationInputs, TrieInputs};
use evm_arithmetization::proof::{BlockHashes, BlockMetadata, TrieRoots};
use evm_arithmetization::EMPTY_CONSOLIDATED_BLOCKHASH;
use keccak_hash::keccak;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::Field;

use crate::model::{rlp_list, rlp_str, spec_root, Map};
use crate::refcrypto::Key;
use crate::refevm::*;

pub type F = GoldilocksField;

pub fn int(x: U256) -> Vec<u8> {
    let b = b32(x);
    rlp_str(&b[32 - (x.bits() + 7) / 8..])
}
pub fn num(x: u64) -> Vec<u8> {
    int(x.into())
}
fn nibbles(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}

/// How the sender may sign: EIP-155 or not (legacy only).
pub fn encode_tx(tx: &Tx, key: &Key, chain_id: u64, eip155: bool) -> Vec<u8> {
    let to = tx.to.map_or(rlp_str(&[]), |a| rlp_str(&a.0));
    let al = rlp_list(
        &tx.access_list
            .iter()
            .map(|(a, ks)| {
                rlp_list(&[
                    rlp_str(&a.0),
                    rlp_list(&ks.iter().map(|k| rlp_str(&b32(*k))).collect::<Vec<_>>()),
                ])
            })
            .collect::<Vec<_>>(),
    );
    let tail = |f: &mut Vec<Vec<u8>>| {
        f.extend([num(tx.gas), to.clone(), int(tx.value), rlp_str(&tx.data)]);
    };
    let mut f = vec![];
    if tx.ty != 0 {
        f.push(num(chain_id));
    }
    f.push(num(tx.nonce));
    if tx.ty >= 2 {
        f.push(int(tx.max_prio));
    }
    f.push(int(tx.max_fee));
    tail(&mut f);
    if tx.ty != 0 {
        f.push(al);
    }
    if tx.ty == 3 {
        f.push(int(tx.max_blob_fee));
        f.push(rlp_list(&tx.blob_hashes.iter().map(|h| rlp_str(&h.0)).collect::<Vec<_>>()));
    }
    let mut unsigned = f.clone();
    if tx.ty == 0 && eip155 {
        unsigned.extend([num(chain_id), num(0), num(0)]);
    }
    let mut msg = rlp_list(&unsigned);
    if tx.ty != 0 {
        msg.insert(0, tx.ty);
    }
    let (par, r, s) = key.sign(&keccak(msg).0);
    f.push(match (tx.ty, eip155) {
        (0, true) => num(35 + 2 * chain_id + par as u64),
        (0, false) => num(27 + par as u64),
        _ => num(par as u64),
    });
    f.push(int(U256::from_big_endian(&r)));
    f.push(int(U256::from_big_endian(&s)));
    let mut out = rlp_list(&f);
    if tx.ty != 0 {
        out.insert(0, tx.ty);
    }
    out
}

pub fn bloom(logs: &[Log]) -> [u8; 256] {
    let mut b = [0u8; 256];
    let mut add = |x: &[u8]| {
        let h = keccak(x).0;
        for i in [0, 2, 4] {
            let bit = ((h[i] as usize) << 8 | h[i + 1] as usize) & 2047;
            b[255 - bit / 8] |= 1 << (bit % 8);
        }
    };
    for l in logs {
        add(&l.addr.0);
        for t in &l.topics {
            add(&t.0);
        }
    }
    b
}
pub fn encode_receipt(r: &Receipt, cum: u64, ty: u8) -> Vec<u8> {
    let logs: Vec<_> = r
        .logs
        .iter()
        .map(|l| {
            rlp_list(&[
                rlp_str(&l.addr.0),
                rlp_list(&l.topics.iter().map(|t| rlp_str(&t.0)).collect::<Vec<_>>()),
                rlp_str(&l.data),
            ])
        })
        .collect();
    let mut v = rlp_list(&[num(r.success as u64), num(cum), rlp_str(&bloom(&r.logs)), rlp_list(&logs)]);
    if ty != 0 {
        v.insert(0, ty);
    }
    v
}

pub fn storage_map(s: &BTreeMap<U256, U256>) -> Map {
    s.iter().map(|(k, v)| (nibbles(&keccak(b32(*k)).0), int(*v))).collect()
}
pub fn account_rlp(a: &Acct) -> Vec<u8> {
    rlp_list(&[
        num(a.nonce),
        int(a.balance),
        rlp_str(&spec_root(&storage_map(&a.storage)).0),
        rlp_str(&keccak(&*a.code).0),
    ])
}
pub fn state_map(w: &World) -> Map {
    w.iter().map(|(a, x)| (nibbles(&keccak(a.0).0), account_rlp(x))).collect()
}
pub fn index_map(v: &[Vec<u8>]) -> Map {
    v.iter().enumerate().map(|(i, x)| (nibbles(&num(i as u64)), x.clone())).collect()
}
pub fn to_trie(m: &Map) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::from(Node::Empty);
    for (k, v) in m {
        t.insert(crate::model::nib(k), v.clone()).unwrap();
    }
    t
}
pub fn hash_nibbles(h: H256) -> Nibbles {
    Nibbles::from_bytes_be(&h.0).unwrap()
}

#[derive(Clone)]
pub struct TxIn {
    pub tx: Tx,
    pub raw: Vec<u8>,
}

/// A block (so far), as the reference EVM sees it.
#[derive(Clone)]
pub struct Batch {
    pub before: World,
    pub after: World,
    pub env: Env,
    /// All transactions and receipts of the block, up to the end of this batch.
    pub txs: Vec<Vec<u8>>,
    pub list: Vec<Tx>,
    pub receipts: Vec<Vec<u8>>,
    pub first: usize,
    pub gas_before: u64,
    pub gas_after: u64,
    pub withdrawals: Vec<(Address, U256)>,
    pub block_bloom: [u8; 256],
    pub logs: usize,
}

/// What came earlier in the block.
#[derive(Clone, Default)]
pub struct Prefix {
    pub txs: Vec<Vec<u8>>,
    pub receipts: Vec<Vec<u8>>,
    pub gas: u64,
}

/// Runs the batches of one block. The transactions that the reference EVM does
/// not accept are left out.
pub fn run_block(
    world: &mut World,
    env: &Env,
    batches: Vec<Vec<TxIn>>,
    withdrawals: Vec<(Address, U256)>,
    stats: &mut Stats,
    kzg: &(dyn Fn(&[u8]) -> Option<bool> + Sync),
) -> Vec<Batch> {
    run_block_after(Prefix::default(), world, env, batches, withdrawals, stats, kzg)
}
pub fn run_block_after(
    prefix: Prefix,
    world: &mut World,
    env: &Env,
    batches: Vec<Vec<TxIn>>,
    withdrawals: Vec<(Address, U256)>,
    stats: &mut Stats,
    kzg: &(dyn Fn(&[u8]) -> Option<bool> + Sync),
) -> Vec<Batch> {
    let Prefix { mut txs, receipts: mut rcs, mut gas } = prefix;
    let mut out = vec![];
    let n = batches.len();
    let mut all_logs = vec![];
    let mut list = vec![];
    for (i, b) in batches.into_iter().enumerate() {
        let before = world.clone();
        let (first, gas_before) = (txs.len(), gas);
        if first == 0 {
            beacon_update(world, env);
        }
        for t in b {
            if let Ok(r) = apply_tx(world, env, &t.tx, env.gas_limit - gas, stats, kzg) {
                gas += r.gas_used;
                rcs.push(encode_receipt(&r, gas, t.tx.ty));
                txs.push(t.raw);
                list.push(t.tx);
                all_logs.extend(r.logs);
            } else {
                *stats.events.entry("transaction left out").or_default() += 1;
            }
        }
        let wd = if i + 1 == n { withdrawals.clone() } else { vec![] };
        for (a, v) in &wd {
            world.entry(*a).or_default().balance += *v;
        }
        world.retain(|_, a| !a.empty());
        out.push(Batch {
            before,
            after: world.clone(),
            env: env.clone(),
            txs: txs.clone(),
            list: list.clone(),
            receipts: rcs.clone(),
            first,
            gas_before,
            gas_after: gas,
            withdrawals: wd,
            block_bloom: [0; 256],
            logs: all_logs.len(),
        });
    }
    let bl = bloom(&all_logs);
    for b in &mut out {
        b.block_bloom = bl;
    }
    out
}

pub fn words_of(b: &[u8; 256]) -> [U256; 8] {
    std::array::from_fn(|i| U256::from_big_endian(&b[32 * i..32 * i + 32]))
}

pub fn metadata(env: &Env, gas_used: u64, bloom: &[u8; 256]) -> BlockMetadata {
    BlockMetadata {
        block_beneficiary: env.coinbase,
        block_timestamp: env.timestamp,
        block_number: env.number.into(),
        block_difficulty: env.difficulty,
        block_random: env.random,
        block_gaslimit: env.gas_limit.into(),
        block_chain_id: env.chain_id.into(),
        block_base_fee: env.base_fee,
        block_gas_used: gas_used.into(),
        block_bloom: words_of(bloom),
        block_blob_gas_used: 0.into(),
        block_excess_blob_gas: env.excess_blob_gas.into(),
        parent_beacon_block_root: env.parent_root,
    }
}

pub fn storage_tries(w: &World) -> Vec<(H256, HashedPartialTrie)> {
    w.iter().map(|(a, x)| (keccak(a.0), to_trie(&storage_map(&x.storage)))).collect()
}
pub fn codes(w: &World) -> HashMap<H256, Vec<u8>> {
    let mut m: HashMap<_, _> = w.values().map(|a| (keccak(&*a.code), a.code.to_vec())).collect();
    m.insert(keccak([]), vec![]);
    m
}

impl Batch {
    pub fn roots_after(&self) -> TrieRoots {
        TrieRoots {
            state_root: spec_root(&state_map(&self.after)),
            transactions_root: spec_root(&index_map(&self.txs)),
            receipts_root: spec_root(&index_map(&self.receipts)),
        }
    }
    pub fn inputs(&self) -> GenerationInputs<F> {
        GenerationInputs {
            signed_txns: self.txs[self.first..].to_vec(),
            burn_addr: None,
            withdrawals: self.withdrawals.clone(),
            ger_data: None,
            tries: TrieInputs {
                state_trie: to_trie(&state_map(&self.before)),
                transactions_trie: to_trie(&index_map(&self.txs[..self.first])),
                receipts_trie: to_trie(&index_map(&self.receipts[..self.first])),
                storage_tries: storage_tries(&self.before),
            },
            trie_roots_after: self.roots_after(),
            contract_code: codes(&self.before),
            checkpoint_state_trie_root: HashedPartialTrie::from(Node::Empty).hash(),
            checkpoint_consolidated_hash: EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64),
            block_metadata: metadata(&self.env, self.gas_after, &self.block_bloom),
            txn_number_before: self.first.into(),
            gas_used_before: self.gas_before.into(),
            gas_used_after: self.gas_after.into(),
            block_hashes: BlockHashes { prev_hashes: self.env.prev_hashes.clone(), cur_hash: self.env.cur_hash },
        }
    }
}
