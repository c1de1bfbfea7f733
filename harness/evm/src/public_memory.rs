//! What the public values of a segment say about memory: the writes with which
//! every segment starts, restated from the layout of the kernel's memory.
use ethereum_types::{BigEndianHash, H256, U256};
use evm_arithmetization::proof::{PublicValues, RegistersData};
use evm_arithmetization::verif_hooks as hooks;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;

fn constant(n: &str) -> usize {
    hooks::kernel_constant(n).unwrap_or_else(|| panic!("harness: no constant {n}")).as_usize()
}
fn segment(n: &str) -> usize {
    constant(n) >> 32
}
/// Memory operations (is read, context, segment, address, eight limbs, time).
pub fn public_memory(p: &PublicValues<F>) -> Vec<Vec<F>> {
    let h = |x: H256| x.into_uint();
    let m = &p.block_metadata;
    let x = &p.extra_block_data;
    let globals: [(&str, U256); 25] = [
        ("BLOCK_BENEFICIARY", U256::from_big_endian(&m.block_beneficiary.0)),
        ("BLOCK_TIMESTAMP", m.block_timestamp),
        ("BLOCK_NUMBER", m.block_number),
        ("BLOCK_DIFFICULTY", m.block_difficulty),
        ("BLOCK_RANDOM", h(m.block_random)),
        ("BLOCK_GAS_LIMIT", m.block_gaslimit),
        ("BLOCK_CHAIN_ID", m.block_chain_id),
        ("BLOCK_BASE_FEE", m.block_base_fee),
        ("BLOCK_GAS_USED", m.block_gas_used),
        ("BLOCK_BLOB_GAS_USED", m.block_blob_gas_used),
        ("BLOCK_EXCESS_BLOB_GAS", m.block_excess_blob_gas),
        ("PARENT_BEACON_BLOCK_ROOT", h(m.parent_beacon_block_root)),
        ("BLOCK_CURRENT_HASH", h(p.block_hashes.cur_hash)),
        ("TXN_NUMBER_BEFORE", x.txn_number_before),
        ("TXN_NUMBER_AFTER", x.txn_number_after),
        ("BLOCK_GAS_USED_BEFORE", x.gas_used_before),
        ("BLOCK_GAS_USED_AFTER", x.gas_used_after),
        ("STATE_TRIE_DIGEST_BEFORE", h(p.trie_roots_before.state_root)),
        ("TXN_TRIE_DIGEST_BEFORE", h(p.trie_roots_before.transactions_root)),
        ("RECEIPT_TRIE_DIGEST_BEFORE", h(p.trie_roots_before.receipts_root)),
        ("STATE_TRIE_DIGEST_AFTER", h(p.trie_roots_after.state_root)),
        ("TXN_TRIE_DIGEST_AFTER", h(p.trie_roots_after.transactions_root)),
        ("RECEIPT_TRIE_DIGEST_AFTER", h(p.trie_roots_after.receipts_root)),
        ("KERNEL_HASH", h(keccak_hash::keccak(hooks::kernel_code()))),
        ("KERNEL_LEN", hooks::kernel_code().len().into()),
    ];
    let mut v: Vec<(usize, usize, U256)> = vec![];
    let s = segment("SEGMENT_GLOBAL_METADATA");
    for (n, value) in globals {
        v.push((s, constant(&format!("GLOBAL_METADATA_{n}")) & 0xffff_ffff, value));
    }
    let s = segment("SEGMENT_GLOBAL_BLOCK_BLOOM");
    v.extend(m.block_bloom.iter().enumerate().map(|(i, &x)| (s, i, x)));
    let s = segment("SEGMENT_BLOCK_HASHES");
    v.extend(p.block_hashes.prev_hashes.iter().enumerate().map(|(i, &x)| (s, i, h(x))));
    let s = segment("SEGMENT_REGISTERS_STATES");
    let regs = |r: &RegistersData| [r.program_counter, r.is_kernel, r.stack_len, r.stack_top, r.context, r.gas_used];
    v.extend(regs(&p.registers_before).into_iter().chain(regs(&p.registers_after)).enumerate().map(|(i, x)| (s, i, x)));
    v.into_iter()
        .map(|(s, i, x)| {
            let mut r = vec![F::ZERO, F::ZERO, F::from_canonical_usize(s), F::from_canonical_usize(i)];
            r.extend((0..8).map(|j| F::from_canonical_u32(((x >> (32 * j)).low_u64() & 0xffff_ffff) as u32)));
            r.push(F::TWO);
            r
        })
        .collect()
}
