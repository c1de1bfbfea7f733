use std::sync::Arc;

use ethereum_types::{Address, U256};
use vh_core::*;

use crate::block::*;
use crate::e01::*;
use crate::gen::*;
use crate::refevm::*;

fn gas_for(c: &mut Case, n: u64, data: &[u8]) -> u64 {
    let mut st = Stats::default();
    let all = 1u64 << 24;
    let cost = match run_precompile(&mut st, &|_| None, Address::from_low_u64_be(n), data, all) {
        Some(o) if o.halt == Halt::Ok => all - o.gas,
        _ => pick(c, &[0, 100, 50000]),
    };
    if cost > 2_000_000 {
        return pick(c, &[2_000_000, 100_000]);
    }
    match c.below(6) {
        0 => cost,
        1 => cost.saturating_sub(1),
        2 => cost + 1,
        3 => c.below(cost as usize + 1) as u64,
        _ => cost + 100_000,
    }
}

/// Contracts that call one precompile each, in all ways, and look at
/// everything that comes back.
pub fn play(c: &mut Case, n: u64) -> (Vec<Batch>, Stats) {
    let env = gen_env(c);
    let mut w = World::new();
    w.insert(beacon_address(), Acct { nonce: 1, code: Arc::new(beacon_code()), ..Default::default() });
    for k in keys() {
        w.insert(k.addr, Acct { nonce: 1, balance: U256::exp10(20), ..Default::default() });
    }
    let pre = Address::from_low_u64_be(n);
    if c.chance(0.2) {
        w.insert(pre, Acct { balance: 7.into(), ..Default::default() });
    }
    let mut txs = vec![];
    for i in 0..1 + c.below(2) as u64 {
        let mut a = Asm::default();
        let mut slot = 0u64;
        for _ in 0..1 + c.below(2) {
            let data = precompile_input(c, n as usize);
            let gas = gas_for(c, n, &data);
            let at = c.below(70);
            let len = match c.below(8) {
                0 => data.len() + c.below(40),
                1 => c.below(data.len() + 1),
                _ => data.len(),
            };
            let len = if n == 8 { data.len() } else { len };
            let (ro, rl) = (c.below(100), pick(c, &[0usize, 32, 64, 31, 33, 128, 200]));
            a.store_bytes(at, data);
            let kind = pick(c, &[0xf1u8, 0xf1, 0xfa, 0xf4, 0xf2]);
            a.push(rl).push(ro).push(len).push(at);
            if kind == 0xf1 || kind == 0xf2 {
                a.push(if c.chance(0.2) { 1 } else { 0 });
            }
            a.push(n).push(gas).op(kind);
            a.push(slot).op(0x55);
            a.op(0x3d).push(slot + 1).op(0x55);
            a.op(0x5a).push(slot + 2).op(0x55);
            a.push(320).push(0).op(0xa0);
            a.op(0x3d).push(0).push(11).op(0x3e);
            a.op(0x3d).push(11).op(0xa0);
            slot += 3;
        }
        a.op(0x00);
        let to = contract(i);
        w.insert(to, Acct { nonce: 1, balance: 1000.into(), code: Arc::new(a.finish()), ..Default::default() });
        txs.push((to, vec![], 0u64, 3_000_000u64));
    }
    if c.chance(0.5) {
        let data = precompile_input(c, n as usize);
        let g = gas_for(c, n, &data);
        txs.push((pre, data, c.below(3) as u64, g));
    }
    let mut ins = vec![];
    for (i, (to, data, value, gas)) in txs.into_iter().enumerate() {
        let mut tx = Tx {
            ty: 2,
            sender: keys()[0].addr,
            nonce: 1 + i as u64,
            max_fee: env.base_fee + 1,
            max_prio: 1.into(),
            gas,
            to: Some(to),
            value: value.into(),
            data,
            access_list: vec![],
            blob_hashes: vec![],
            max_blob_fee: 0.into(),
        };
        tx.gas += intrinsic(&tx);
        ins.push(TxIn { raw: encode_tx(&tx, &keys()[0], env.chain_id, true), tx });
    }
    let mut stats = Stats { trace: std::env::var_os("VH_TRACE").is_some(), ..Default::default() };
    let out = run_block(&mut w, &env, vec![ins], vec![], &mut stats, &|_| None);
    (out, stats)
}

pub fn run(k: &mut Check) {
    k.rule("one evaluation = one batch of transactions that call precompiled contracts, run by the kernel against the reference's roots, receipts and gas");
    k.assume("the reference implementations of the precompiles in /verif are right; the proof of the KZG point evaluation itself is taken from inputs that are valid by construction");
    for e in ["ecrecover", "sha256", "ripemd160", "identity", "modexp", "bn_add", "bn_mul", "bn_pairing", "blake2f"] {
        k.require(e, 15);
    }
    k.require("kzg", 8);
    k.require("precompile failure", 30);
    k.require("precompile out of gas", 100);
    let n = k.n(300, 10000);
    k.stage("direct", n, |c| {
        let n = 1 + c.index as u64 % 10;
        let (bs, stats) = play(c, n);
        c.log(|| describe(&bs));
        count_stats(c, &stats);
        for b in &bs {
            accept(c, b)?;
            c.distinct((b.gas_after, b.roots_after().state_root));
            c.sample(|| format!("{} transactions, gas {}, state root {:?}", b.txs.len() - b.first, b.gas_after - b.gas_before, b.roots_after().state_root));
        }
        Ok(())
    });
    let n = k.n(100, 4000);
    k.stage("programs", n, |c| {
        let st = Style { fault: 0.0, precompiles: true };
        let (bs, stats) = gen_block(c, st, 2);
        c.log(|| describe(&bs));
        count_stats(c, &stats);
        for b in &bs {
            accept(c, b)?;
            c.distinct((b.gas_after, b.roots_after().state_root));
            c.sample(|| format!("{} transactions, gas {}, state root {:?}", b.txs.len() - b.first, b.gas_after - b.gas_before, b.roots_after().state_root));
        }
        Ok(())
    });
}
