//! The traces of honest executions satisfy every constraint, lookup and
//! cross-table lookup.
use std::collections::HashMap;
use std::sync::OnceLock;

use evm_arithmetization::generation::{generate_traces, TablesWithPVs};
use evm_arithmetization::{GenerationSegmentData, SegmentDataIterator, StarkConfig};
use evm_arithmetization::generation::{GenerationInputs, TrimmedGenerationInputs};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::util::timing::TimingTree;
use vh_core::*;

use crate::block::*;
use crate::e01::*;
use crate::gen::*;
use crate::stark::*;

pub fn all() -> &'static All {
    static A: OnceLock<All> = OnceLock::new();
    A.get_or_init(All::default)
}
pub fn config() -> StarkConfig {
    evm_arithmetization::testing_utils::TEST_STARK_CONFIG
}

pub struct Segment {
    pub rows: Vec<Vec<Vec<F>>>,
    pub in_use: Vec<bool>,
    pub tables: TablesWithPVs<F>,
}

pub fn trace(inputs: &TrimmedGenerationInputs<F>, seg: &GenerationSegmentData) -> Result<Segment, String> {
    let mut seg = seg.clone();
    let t = generate_traces(all(), inputs, &config(), &mut seg, &mut TimingTree::default()).map_err(|e| format!("traces of a simulated segment cannot be generated: {e:#}"))?;
    let rows = t
        .tables
        .iter()
        .map(|cols| {
            let n = cols.first().map_or(0, |c| c.values.len());
            (0..n).map(|i| cols.iter().map(|c| c.values[i]).collect()).collect()
        })
        .collect();
    Ok(Segment { rows, in_use: t.table_in_use.to_vec(), tables: t })
}

/// The segments of an execution; those chosen by `want` are returned.
pub fn segments(inputs: &GenerationInputs<F>, log: Option<usize>, mut want: impl FnMut(usize) -> bool) -> Result<(usize, Vec<(usize, TrimmedGenerationInputs<F>, GenerationSegmentData)>), String> {
    let mut v = vec![];
    let mut n = 0;
    let mut last = None;
    for (i, s) in SegmentDataIterator::<F>::new(inputs, log).enumerate() {
        let (t, s) = s.map_err(|e| format!("simulation failed: {:#}", e.inner).chars().take(300).collect::<String>())?;
        n += 1;
        if want(i) {
            v.push((i, t, s));
            last = None;
        } else {
            last = Some((i, t, s));
        }
    }
    v.extend(last);
    Ok((n, v))
}

fn pos(t: usize, i: usize) -> String {
    format!("table {} row {i}", TABLE_NAMES[t])
}

pub fn check_rows(c: &mut Case, s: &Segment, t: usize) -> R {
    let rows = &s.rows[t];
    let n = rows.len();
    for i in 0..n {
        let at = At { first: i == 0, last: i + 1 == n };
        if !satisfied(all(), t, &rows[i], &rows[(i + 1) % n], at) {
            let l: Vec<_> = rows[i].iter().map(|&x| Dual::new(x)).collect();
            let m: Vec<_> = rows[(i + 1) % n].iter().map(|&x| Dual::new(x)).collect();
            let bad: Vec<_> = constraints(all(), t, &l, &m, at).iter().enumerate().filter(|x| x.1.v != F::ZERO).map(|x| x.0).take(5).collect();
            return Err(format!("an honest trace violates constraints {bad:?} of {}: {:?}", pos(t, i), rows[i].iter().take(60).map(|x| x.to_canonical_u64()).collect::<Vec<_>>()));
        }
    }
    c.count(&format!("rows of {} checked", TABLE_NAMES[t]), n as u64);
    Ok(())
}
fn mix(a: u64) -> u64 {
    let mut z = a.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
/// Additive fingerprints of multisets of values and tuples: equal for equal
/// multisets, different for different ones but with negligible probability.
fn print1(v: F) -> u64 {
    mix(small(v))
}
fn print_tuple(v: impl Iterator<Item = F>) -> u64 {
    v.fold(7, |h, x| mix(h ^ mix(small(x)).rotate_left(17)).wrapping_mul(0x9fb2_1c65_1e98_df25))
}
fn lookups_balance(c: &mut Case, s: &Segment, t: usize, l: &Look) -> bool {
    let rows = &s.rows[t];
    let n = rows.len();
    let (mut sum, mut count) = (0u64, 0);
    for i in 0..n {
        let next = &rows[(i + 1) % n];
        for (col, f) in l.columns.iter().zip(&l.filters) {
            let on = f.eval(&rows[i], next);
            if on != F::ZERO {
                if on != F::ONE {
                    return false;
                }
                count += 1;
                sum = sum.wrapping_add(print1(col.eval(&rows[i], next)));
            }
        }
        let fr = small(l.freq.eval(&rows[i], next));
        if fr != 0 {
            sum = sum.wrapping_sub(fr.wrapping_mul(print1(l.table.eval(&rows[i], next))));
        }
    }
    c.count("values looked up", count);
    sum == 0
}
fn ctl_balances(c: &mut Case, s: &Segment, ctl: &Ctl) -> bool {
    let (mut sum, mut count) = (0u64, 0);
    for (side, sign) in ctl.looking.iter().map(|x| (x, 1u64)).chain([(&ctl.looked, u64::MAX)]) {
        let rows = &s.rows[side.table];
        let n = rows.len();
        for i in 0..n {
            let next = &rows[(i + 1) % n];
            let on = side.filter.eval(&rows[i], next);
            if on == F::ZERO {
                continue;
            }
            if on != F::ONE || !s.in_use[side.table] {
                return false;
            }
            count += 1;
            sum = sum.wrapping_add(sign.wrapping_mul(print_tuple(side.columns.iter().map(|f| f.eval(&rows[i], next)))));
        }
    }
    if ctl.looked.table == 6 {
        for v in crate::public_memory::public_memory(&s.tables.public_values) {
            sum = sum.wrapping_add(print_tuple(v.into_iter()));
        }
    }
    c.count("cross-table tuples", count);
    sum == 0
}
pub fn check_lookups(c: &mut Case, s: &Segment, t: usize) -> R {
    let rows = &s.rows[t];
    let n = rows.len();
    static L: OnceLock<Vec<Vec<Look>>> = OnceLock::new();
    for (k, l) in L.get_or_init(|| (0..TABLES).map(|t| lookups(all(), t)).collect())[t].iter().enumerate() {
        if lookups_balance(c, s, t, l) {
            continue;
        }
        let mut m: HashMap<u64, i64> = HashMap::new();
        for i in 0..n {
            let next = &rows[(i + 1) % n];
            for (col, f) in l.columns.iter().zip(&l.filters) {
                let on = f.eval(&rows[i], next);
                if on != F::ZERO {
                    check!(on == F::ONE, "lookup {k} of {}: filter is {on:?}", pos(t, i));
                    *m.entry(small(col.eval(&rows[i], next))).or_default() += 1;
                }
            }
        }
        for i in 0..n {
            let next = &rows[(i + 1) % n];
            let fr = small(l.freq.eval(&rows[i], next)) as i64;
            if fr != 0 {
                *m.entry(small(l.table.eval(&rows[i], next))).or_default() -= fr;
            }
        }
        if let Some((v, d)) = m.iter().find(|x| *x.1 != 0) {
            return Err(format!("lookup {k} of table {}: value {v} is looked up {d} times more than the table has it", TABLE_NAMES[t]));
        }
        return Err(format!("harness: lookup {k} of table {} does not balance", TABLE_NAMES[t]));
    }
    Ok(())
}
pub fn all_ctls() -> &'static Vec<Ctl> {
    static C: OnceLock<Vec<Ctl>> = OnceLock::new();
    C.get_or_init(|| ctls(all()))
}
pub fn check_ctls(c: &mut Case, s: &Segment) -> R {
    for (k, ctl) in all_ctls().iter().enumerate() {
        if ctl_balances(c, s, ctl) {
            continue;
        }
        let mut m: HashMap<Vec<u64>, i64> = HashMap::new();
        for (side, sign) in ctl.looking.iter().map(|x| (x, 1)).chain([(&ctl.looked, -1)]) {
            let rows = &s.rows[side.table];
            let n = rows.len();
            for i in 0..n {
                let next = &rows[(i + 1) % n];
                let on = side.filter.eval(&rows[i], next);
                if on == F::ZERO {
                    continue;
                }
                check!(s.in_use[side.table], "cross-table lookup {k}: {} takes part, but its table is said not to be in use", pos(side.table, i));
                check!(on == F::ONE, "cross-table lookup {k}: filter of {} is {on:?}", pos(side.table, i));
                *m.entry(side.columns.iter().map(|f| small(f.eval(&rows[i], next))).collect()).or_default() += sign;
            }
        }
        if ctl.looked.table == 6 {
            for v in crate::public_memory::public_memory(&s.tables.public_values) {
                *m.entry(v.iter().map(|&x| small(x)).collect()).or_default() += 1;
            }
        }
        if let Some((v, d)) = m.iter().find(|x| *x.1 != 0) {
            return Err(format!("cross-table lookup {k} (looked up in {}): {v:?} is sent {d} times more than received", TABLE_NAMES[ctl.looked.table]));
        }
        return Err(format!("harness: cross-table lookup {k} does not balance"));
    }
    Ok(())
}
pub fn check_segment(c: &mut Case, s: &Segment) -> R {
    for t in 0..TABLES {
        if s.in_use[t] {
            check_rows(c, s, t)?;
            check_lookups(c, s, t)?;
        }
    }
    check_ctls(c, s)?;
    c.eval();
    Ok(())
}

/// Some block, from all the generators there are.
pub fn any_batch(c: &mut Case) -> (Vec<Batch>, crate::refevm::Stats) {
    match c.index % 4 {
        0 => {
            let which = c.index / 4 % crate::scenario::NAMES.len();
            crate::scenario::play(c, which)
        }
        1 => crate::e03::play(c, 1 + (c.index / 4 % 10) as u64),
        2 => crate::e02::cut(c, Style { fault: 0.02, precompiles: false }),
        _ => {
            let st = Style { fault: pick(c, &[0.0, 0.1, 0.3]), precompiles: c.chance(0.3) };
            gen_block(c, st, 3)
        }
    }
}

pub fn run(k: &mut Check) {
    k.rule("one evaluation = one segment of an execution, all of whose rows, lookups and cross-table lookups were evaluated");
    for t in TABLE_NAMES {
        k.require(&format!("rows of {t} checked"), 10000);
    }
    let n = k.n(40, 3000);
    k.threads(6);
    k.hang_limit(600);
    k.stage("segments", n, |c| {
        let (bs, stats) = any_batch(c);
        c.log(|| describe(&bs));
        count_stats(c, &stats);
        let b = &bs[c.below(bs.len())];
        let inputs = b.inputs();
        let mut log = pick(c, &[None, Some(13), Some(14), Some(15), Some(16)]);
        if log.is_none() && segments(&inputs, Some(17), |_| false)?.0 > 1 {
            // an unlimited segment of a long execution takes too much memory
            log = Some(17);
        }
        let (p, skip) = (pick(c, &[0.1, 0.5]), c.below(12));
        let mut left = 2;
        let mut coin = vec![];
        for _ in 0..4000 {
            coin.push(c.chance(p));
        }
        let (n, v) = segments(&inputs, log, |i| {
            let w = i >= skip && left > 0 && coin[i % 4000];
            left -= w as i32;
            w
        })?;
        c.count("segments simulated", n as u64);
        for (i, t, s) in v {
            let s = trace(&t, &s).map_err(|e| format!("segment {i}: {e}"))?;
            check_segment(c, &s).map_err(|e| format!("segment {i} of {n}: {e}"))?;
            if std::env::var("VH_TIME").is_ok() { eprintln!("TIME {} seg {i}/{n} log {log:?} {:?}", c.index, s.rows.iter().map(|r| r.len()).collect::<Vec<_>>()); }
            c.distinct((small(s.rows[2][0][2]), s.rows[2].len(), s.rows[6].len(), b.gas_after));
            c.sample(|| format!("segment {i} of {n}: {:?} rows", s.rows.iter().map(|r| r.len()).collect::<Vec<_>>()));
        }
        Ok(())
    });
}
