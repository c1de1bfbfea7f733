//! The public inputs of the recursive circuits, laid out by hand, and stand-ins
//! for the proofs of a layer.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

use evm_arithmetization::fixed_recursive_verifier::{AllRecursiveCircuits, ProofWithPublicValues, RecursionConfig};
use evm_arithmetization::generation::{GenerationInputs, TrieInputs};
use evm_arithmetization::proof::*;
use ethereum_types::{H256, U256};
use evm_arithmetization::AllStark;
use mpt_trie::partial_trie::PartialTrie;
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::PoseidonHash;
use plonky2::plonk::circuit_data::{CircuitData, CommonCircuitData, VerifierOnlyCircuitData};
use plonky2::plonk::config::{Hasher, PoseidonGoldilocksConfig};
use plonky2::plonk::proof::ProofWithPublicInputs;
use plonky2::recursion::dummy_circuit::{dummy_circuit, dummy_proof};

pub type F = GoldilocksField;
pub type Cf = PoseidonGoldilocksConfig;
pub const D: usize = 2;
pub type All = AllRecursiveCircuits<F, Cf, D>;
pub type Circuit = CircuitData<F, Cf, D>;
pub type Proof = ProofWithPublicInputs<F, Cf, D>;
pub type Vk = VerifierOnlyCircuitData<Cf, D>;
pub type Pvs = ProofWithPublicValues<F, Cf, D>;

pub const P: u64 = 0xffff_ffff_0000_0001;

/// The fields of the public values of a segment, batch or block, in order.
pub const FIELDS: [(&str, usize); 44] = [
    ("roots before: state", 8),
    ("roots before: transactions", 8),
    ("roots before: receipts", 8),
    ("roots after: state", 8),
    ("roots after: transactions", 8),
    ("roots after: receipts", 8),
    ("beneficiary", 5),
    ("timestamp", 1),
    ("number", 1),
    ("difficulty", 1),
    ("random", 8),
    ("gas limit", 1),
    ("chain id", 1),
    ("base fee", 2),
    ("gas used", 1),
    ("blob gas used", 2),
    ("excess blob gas", 2),
    ("beacon root", 8),
    ("bloom", 64),
    ("oldest hash", 8),
    ("previous hashes", 254 * 8),
    ("parent hash", 8),
    ("current hash", 8),
    ("checkpoint root", 8),
    ("checkpoint hashes", 4),
    ("txn before", 1),
    ("txn after", 1),
    ("gas before", 1),
    ("gas after", 1),
    ("before: pc", 1),
    ("before: kernel", 1),
    ("before: stack len", 1),
    ("before: stack top", 8),
    ("before: context", 1),
    ("before: gas", 1),
    ("after: pc", 1),
    ("after: kernel", 1),
    ("after: stack len", 1),
    ("after: stack top", 8),
    ("after: context", 1),
    ("after: gas", 1),
    ("memory before", 64),
    ("memory after", 64),
    ("end", 0),
];
pub const FINAL_FIELDS: [(&str, usize); 5] =
    [("chain id", 1), ("checkpoint root", 8), ("new root", 8), ("checkpoint hashes", 4), ("new hashes", 4)];

pub fn offsets() -> &'static BTreeMap<&'static str, (usize, usize)> {
    static O: OnceLock<BTreeMap<&'static str, (usize, usize)>> = OnceLock::new();
    O.get_or_init(|| {
        let mut at = 0;
        FIELDS
            .iter()
            .map(|&(n, l)| {
                at += l;
                (n, (at - l, at))
            })
            .collect()
    })
}
/// Number of public values.
pub fn size() -> usize {
    offsets()["end"].0
}
pub fn f(x: u64) -> F {
    F::from_noncanonical_u64(x)
}

/// The public values of a proof, as field elements.
#[derive(Clone, PartialEq, Eq)]
pub struct V(pub Vec<u64>);
impl V {
    pub fn get(&self, n: &str) -> &[u64] {
        let (a, b) = offsets()[n];
        &self.0[a..b]
    }
    pub fn set(&mut self, n: &str, v: &[u64]) {
        let (a, b) = offsets()[n];
        self.0[a..b].copy_from_slice(v)
    }
    pub fn one(&self, n: &str) -> u64 {
        let v = self.get(n);
        assert_eq!(v.len(), 1);
        v[0]
    }
    pub fn copy(&mut self, n: &str, from: &V, m: &str) {
        let v = from.get(m).to_vec();
        self.set(n, &v);
    }
    /// All the 256 previous hashes.
    pub fn hashes(&self) -> &[u64] {
        &self.0[offsets()["oldest hash"].0..offsets()["parent hash"].1]
    }
    pub fn public_values(&self) -> PublicValues<F> {
        let v: Vec<F> = self.0.iter().map(|&x| f(x)).collect();
        PublicValues::from_public_inputs(&v)
    }
    pub fn of(pis: &[F]) -> V {
        V(pis[..size()].iter().map(|x| x.to_canonical_u64()).collect())
    }
}

pub fn hash(v: &[u64]) -> Vec<u64> {
    let v: Vec<F> = v.iter().map(|&x| f(x)).collect();
    <PoseidonHash as Hasher<F>>::hash_no_pad(&v).elements.iter().map(|x| x.to_canonical_u64()).collect()
}
/// The limbs of a 32-byte hash: big-endian integer, least significant first.
pub fn limbs(h: [u8; 32]) -> Vec<u64> {
    h.chunks(4).rev().map(|c| u32::from_be_bytes(c.try_into().unwrap()) as u64).collect()
}

pub fn vk_pis(vk: &Vk) -> Vec<u64> {
    let mut v: Vec<u64> = vk.circuit_digest.elements.iter().map(|x| x.to_canonical_u64()).collect();
    for h in &vk.constants_sigmas_cap.0 {
        v.extend(h.elements.iter().map(|x| x.to_canonical_u64()));
    }
    v
}

/// A circuit without constraints on its public inputs, of the given shape.
pub fn free_circuit(common: &CommonCircuitData<F, D>) -> Circuit {
    dummy_circuit::<F, Cf, D>(common)
}
pub fn free_proof(c: &Circuit, pis: &[u64]) -> Proof {
    assert_eq!(pis.len(), c.common.num_public_inputs);
    dummy_proof::<F, Cf, D>(c, pis.iter().enumerate().map(|(i, &x)| (i, f(x))).collect()).expect("free proof")
}

/// Runs the prover or verifier; a refusal is an error or a panic.
pub fn attempt<T>(g: impl FnOnce() -> anyhow::Result<T>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(g)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())),
    }
}

/// A payload without transactions or withdrawals.
pub fn empty_payload(ts: u64) -> GenerationInputs<F> {
    let t: TrieInputs = Default::default();
    let roots = TrieRoots {
        state_root: t.state_trie.hash(),
        transactions_root: t.transactions_trie.hash(),
        receipts_root: t.receipts_trie.hash(),
    };
    GenerationInputs {
        checkpoint_state_trie_root: roots.state_root,
        trie_roots_after: roots,
        tries: t,
        block_metadata: BlockMetadata {
            block_number: 1.into(),
            block_timestamp: ts.into(),
            block_chain_id: 1.into(),
            ..Default::default()
        },
        ..Default::default()
    }
}

pub fn circuits(ranges: &[std::ops::Range<usize>; 9]) -> All {
    AllRecursiveCircuits::new(&AllStark::<F, D>::default(), ranges, RecursionConfig::test_config())
}
/// The smallest set of circuits.
pub fn small_circuits() -> All {
    circuits(&[16..17, 8..9, 9..10, 7..8, 8..9, 5..6, 17..18, 16..17, 7..8])
}

impl V {
    /// Whether the values can be written as public values.
    pub fn public_values_fit(&self) -> bool {
        FIELDS.iter().all(|(n, _)| {
            matches!(*n, "memory before" | "memory after" | "checkpoint hashes") || self.get(n).iter().all(|x| x >> 32 == 0)
        })
    }
}

/// Little-endian 32-bit limbs.
fn words(x: U256, n: usize) -> Vec<u64> {
    (0..n).map(|i| (x >> (32 * i)).low_u64() & 0xffff_ffff).collect()
}
impl V {
    /// The public inputs for public values.
    pub fn from_public_values(p: &PublicValues<F>) -> V {
        let h = |x: &H256| limbs(x.0);
        let one = |x: U256| vec![x.as_u64()];
        let m = &p.block_metadata;
        let x = &p.extra_block_data;
        let mut v = V(vec![0; size()]);
        for (at, r) in [("before", &p.trie_roots_before), ("after", &p.trie_roots_after)] {
            v.set(&format!("roots {at}: state"), &h(&r.state_root));
            v.set(&format!("roots {at}: transactions"), &h(&r.transactions_root));
            v.set(&format!("roots {at}: receipts"), &h(&r.receipts_root));
        }
        v.set("beneficiary", &words(U256::from_big_endian(&m.block_beneficiary.0), 5));
        v.set("timestamp", &one(m.block_timestamp));
        v.set("number", &one(m.block_number));
        v.set("difficulty", &one(m.block_difficulty));
        v.set("random", &h(&m.block_random));
        v.set("gas limit", &one(m.block_gaslimit));
        v.set("chain id", &one(m.block_chain_id));
        v.set("base fee", &words(m.block_base_fee, 2));
        v.set("gas used", &one(m.block_gas_used));
        v.set("blob gas used", &words(m.block_blob_gas_used, 2));
        v.set("excess blob gas", &words(m.block_excess_blob_gas, 2));
        v.set("beacon root", &h(&m.parent_beacon_block_root));
        v.set("bloom", &m.block_bloom.iter().flat_map(|&x| words(x, 8)).collect::<Vec<_>>());
        let hs: Vec<u64> = p.block_hashes.prev_hashes.iter().flat_map(h).collect();
        let (a, b) = (offsets()["oldest hash"].0, offsets()["parent hash"].1);
        v.0[a..b].copy_from_slice(&hs);
        v.set("current hash", &h(&p.block_hashes.cur_hash));
        v.set("checkpoint root", &h(&x.checkpoint_state_trie_root));
        v.set("checkpoint hashes", &x.checkpoint_consolidated_hash.map(|y| y.to_canonical_u64()));
        v.set("txn before", &one(x.txn_number_before));
        v.set("txn after", &one(x.txn_number_after));
        v.set("gas before", &one(x.gas_used_before));
        v.set("gas after", &one(x.gas_used_after));
        for (at, r) in [("before", &p.registers_before), ("after", &p.registers_after)] {
            v.set(&format!("{at}: pc"), &one(r.program_counter));
            v.set(&format!("{at}: kernel"), &one(r.is_kernel));
            v.set(&format!("{at}: stack len"), &one(r.stack_len));
            v.set(&format!("{at}: stack top"), &words(r.stack_top, 8));
            v.set(&format!("{at}: context"), &one(r.context));
            v.set(&format!("{at}: gas"), &one(r.gas_used));
        }
        for (at, c) in [("before", &p.mem_before), ("after", &p.mem_after)] {
            v.set(&format!("memory {at}"), &c.mem_cap.iter().flatten().map(|x| x.as_u64()).collect::<Vec<_>>());
        }
        v
    }
}
