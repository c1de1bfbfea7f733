//! Gas, exceptional halts, reverts: blocks whose transactions end in the middle.
use vh_core::*;

use crate::block::*;
use crate::e01::*;
use crate::gen::*;
use crate::refevm::*;

/// A generated block, with the gas of each transaction then chosen so that it
/// runs out at, just before, or just after one of the steps of its outermost frame.
pub fn cut(c: &mut Case, st: Style) -> (Vec<Batch>, Stats) {
    let p = pool();
    let env = gen_env(c);
    let mut world = gen_world(c, &p, st);
    let mut w = world.clone();
    beacon_update(&mut w, &env);
    let (mut b, mut gas) = (vec![], 0);
    let mut stats = Stats { trace: std::env::var_os("VH_TRACE").is_some(), ..Default::default() };
    for _ in 0..3 {
        let Some((mut tx, k)) = gen_tx(c, &p, &w, &env, st) else { continue };
        tx.gas = intrinsic(&tx) + 700_000;
        let mut probe = Stats { gas_steps: Some(vec![]), ..Default::default() };
        let mut w2 = w.clone();
        let Ok(r) = apply_tx(&mut w2, &env, &tx, env.gas_limit - gas, &mut probe, &|_| None) else { continue };
        let v = probe.gas_steps.unwrap();
        tx.gas = if v.is_empty() || c.chance(0.1) {
            // the exact cost, which a refund may have lowered
            (r.gas_used + c.below(3) as u64).saturating_sub(1).max(intrinsic(&tx))
        } else {
            let used = 700_000 - v[c.below(v.len())];
            intrinsic(&tx) + (used + c.below(3) as u64).saturating_sub(1)
        };
        if let Ok(r) = apply_tx(&mut w, &env, &tx, env.gas_limit - gas, &mut Stats::default(), &|_| None) {
            gas += r.gas_used;
            stats.ev("gas cut at a chosen step");
            b.push(TxIn { raw: encode_tx(&tx, &keys()[k], env.chain_id, true), tx });
        }
    }
    let out = run_block(&mut world, &env, vec![b], vec![], &mut stats, &|_| None);
    (out, stats)
}

pub fn run(k: &mut Check) {
    k.rule("one evaluation = the kernel's run of one batch against the reference's roots, receipts and gas");
    k.require("gas cut at a chosen step", 300);
    k.require("transaction failed", 200);
    let n = k.n(400, 12000);
    k.stage("gas cut", n, |c| {
        let st = Style { fault: pick(c, &[0.0, 0.02]), precompiles: c.chance(0.2) };
        let (bs, stats) = cut(c, st);
        c.log(|| describe(&bs));
        count_stats(c, &stats);
        for b in &bs {
            accept(c, b)?;
            c.distinct((b.gas_after, b.roots_after().state_root));
            c.sample(|| format!("{} transactions, gas {}, state root {:?}", b.txs.len() - b.first, b.gas_after - b.gas_before, b.roots_after().state_root));
        }
        Ok(())
    });
    let n = k.n(80, 2000);
    k.stage("limits of the stack", n, |c| {
        let (bs, stats) = crate::scenario::play(c, if c.index % 4 == 3 { 14 } else { 15 });
        c.log(|| describe(&bs));
        count_stats(c, &stats);
        for b in &bs {
            accept(c, b)?;
            c.distinct((b.gas_after, b.roots_after().state_root));
        }
        Ok(())
    });
    let n = k.n(300, 8000);
    k.stage("faults", n, |c| {
        let st = Style { fault: 0.35, precompiles: c.chance(0.3) };
        let (bs, stats) = gen_block(c, st, 3);
        c.log(|| describe(&bs));
        count_stats(c, &stats);
        for b in &bs {
            accept(c, b)?;
            c.distinct((b.gas_after, b.roots_after().state_root));
            c.sample(|| format!("{} transactions, gas {}, state root {:?}", b.txs.len() - b.first, b.gas_after - b.gas_before, b.roots_after().state_root));
        }
        Ok(())
    });
}
