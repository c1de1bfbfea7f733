//! V01: a segment proof stands for its public values and its tables, and for
//! nothing else.
//!
//! Real proofs are made, verified, and tampered with; and the root circuit is
//! given tables that claim anything (from circuits that accept any public
//! inputs), and compared with a specification of what has to agree.
use evm_arithmetization::fixed_recursive_verifier::RecursionConfig;
use evm_arithmetization::proof::{AllProof, PublicValues};
use evm_arithmetization::testing_utils::TEST_STARK_CONFIG;
use evm_arithmetization::verif_hooks as hooks;
use evm_arithmetization::verifier::testing::{verify_all_proofs, verify_proof};
use evm_arithmetization::AllStark;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::util::timing::TimingTree;
use rand::Rng;
use std::sync::OnceLock;
use vh_core::*;
use vh_evm::c01;
use vh_evm::public_memory::public_memory;
use vh_evm::stark::{ctls, TABLE_NAMES};

use crate::common::*;
use crate::r01::{names, perturb, pick, random};

const OPTIONAL: [bool; 9] = [false, true, false, true, true, true, false, false, true];
const CAP: usize = 64;
const STATE: usize = 12;
const ZS: usize = CAP + 2 + 2 * STATE;
const MEMORY: usize = 6;
const BEFORE: usize = 7;
const AFTER: usize = 8;

/// For each cross-table lookup, where its sums are: tables that look, and the
/// one they look into, with the position among the sums of the table.
struct Ctl {
    looking: Vec<(usize, usize)>,
    looked: (usize, usize),
}
fn layout() -> (Vec<Ctl>, [usize; 9]) {
    let mut at = [0; 9];
    let v = ctls(&AllStark::default())
        .iter()
        .map(|c| {
            let mut seen: Vec<(usize, usize)> = vec![];
            for s in &c.looking {
                if !seen.iter().any(|x| x.0 == s.table) {
                    seen.push((s.table, at[s.table]));
                    at[s.table] += 1;
                }
            }
            let t = c.looked.table;
            at[t] += 1;
            Ctl { looking: seen, looked: (t, at[t] - 1) }
        })
        .collect();
    (v, at)
}
fn add(a: u64, b: u64) -> u64 {
    (f(a) + f(b)).to_canonical_u64()
}
fn neg(a: u64) -> u64 {
    (-f(a)).to_canonical_u64()
}
/// The sum over the memory operations that public values stand for.
fn public_sum(pv: &PublicValues<F>, beta: u64, gamma: u64) -> u64 {
    let mut s = F::ZERO;
    for row in public_memory(pv) {
        let mut x = F::ZERO;
        for &y in row.iter().rev() {
            x = x * f(beta) + y;
        }
        s += (x + f(gamma)).inverse();
    }
    s.to_canonical_u64()
}
fn challenges(caps: &[Vec<u64>], pv: &PublicValues<F>) -> (u64, u64, Vec<u64>) {
    let caps: Vec<Vec<F>> = caps.iter().map(|x| x.iter().map(|&y| f(y)).collect()).collect();
    let (c, s) = hooks::segment_challenges(&caps, pv, 1).expect("harness: challenges");
    (c[0].0.to_canonical_u64(), c[0].1.to_canonical_u64(), s.iter().map(|x| x.to_canonical_u64()).collect())
}

/// What the tables of a segment claim.
#[derive(Clone)]
struct Claim {
    pis: Vec<Vec<u64>>,
    used: [bool; 9],
    pv: V,
}
struct Spec {
    ctls: Vec<Ctl>,
    zs: [usize; 9],
}
impl Spec {
    /// Why the claim is to be refused.
    fn judge(&self, x: &Claim) -> Option<String> {
        let pv = x.pv.public_values();
        for t in 0..9 {
            if !x.used[t] {
                if !OPTIONAL[t] {
                    return Some(format!("{} is not in use", TABLE_NAMES[t]));
                }
                if x.pis[t][..CAP].iter().chain(&x.pis[t][ZS..]).any(|&y| y != 0) {
                    return Some(format!("{} is not in use, but not empty", TABLE_NAMES[t]));
                }
            }
        }
        let caps: Vec<Vec<u64>> = x.pis.iter().map(|p| p[..CAP].to_vec()).collect();
        let (beta, gamma, mut state) = challenges(&caps, &pv);
        for t in 0..9 {
            let p = &x.pis[t];
            if x.used[t] {
                if p[CAP..CAP + 2] != [beta, gamma] {
                    return Some(format!("challenges of {}", TABLE_NAMES[t]));
                }
                if p[CAP + 2..CAP + 2 + STATE] != state {
                    return Some(format!("challenger before {}", TABLE_NAMES[t]));
                }
                state = p[CAP + 2 + STATE..ZS].to_vec();
            }
        }
        for (i, c) in self.ctls.iter().enumerate() {
            let z = |x: &Claim, (t, k): (usize, usize)| x.pis[t][ZS + k];
            let mut s = c.looking.iter().fold(0, |s, &y| add(s, z(x, y)));
            if c.looked.0 == MEMORY {
                s = add(s, public_sum(&pv, beta, gamma));
            }
            if s != z(x, c.looked) {
                return Some(format!("cross-table lookup {i}"));
            }
        }
        if x.pv.get("memory before") != &x.pis[BEFORE][..CAP] {
            return Some("memory before".into());
        }
        if x.pv.get("memory after") != &x.pis[AFTER][..CAP] {
            return Some("memory after".into());
        }
        None
    }
    /// Sums that balance.
    fn balance(&self, c: &mut Case, x: &mut Claim, sum: u64) {
        for ctl in &self.ctls {
            let mut total = if ctl.looked.0 == MEMORY { sum } else { 0 };
            for &(t, k) in &ctl.looking {
                let z = if x.used[t] { c.rng.gen::<u64>() % P } else { 0 };
                x.pis[t][ZS + k] = z;
                total = add(total, z);
            }
            if !x.used[ctl.looked.0] {
                // Then nothing is looked up.
                if let Some(&(t, k)) = ctl.looking.iter().find(|y| x.used[y.0]) {
                    x.pis[t][ZS + k] = add(x.pis[t][ZS + k], neg(total));
                }
                total = 0;
            }
            x.pis[ctl.looked.0][ZS + ctl.looked.1] = total;
        }
    }
    /// A claim that agrees with itself.
    fn honest(&self, c: &mut Case, used: [bool; 9]) -> Claim {
        let mut pv = random(c);
        // Flags and counters that fit.
        if !used[AFTER] {
            pv.set("memory after", &[0; CAP]);
        }
        let mut x = Claim { pis: vec![], used, pv };
        for t in 0..9 {
            let mut v: Vec<u64> = (0..ZS + self.zs[t]).map(|_| c.rng.gen::<u64>() % P).collect();
            if t == BEFORE {
                v[..CAP].copy_from_slice(x.pv.get("memory before"));
            }
            if t == AFTER {
                v[..CAP].copy_from_slice(x.pv.get("memory after"));
            }
            if !used[t] {
                v[..CAP].fill(0);
                v[ZS..].fill(0);
            }
            x.pis.push(v);
        }
        let pv = x.pv.public_values();
        let caps: Vec<Vec<u64>> = x.pis.iter().map(|p| p[..CAP].to_vec()).collect();
        let (beta, gamma, mut state) = challenges(&caps, &pv);
        for t in 0..9 {
            if used[t] {
                let p = &mut x.pis[t];
                p[CAP] = beta;
                p[CAP + 1] = gamma;
                p[CAP + 2..CAP + 2 + STATE].copy_from_slice(&state);
                state = p[CAP + 2 + STATE..ZS].to_vec();
            }
        }
        self.balance(c, &mut x, public_sum(&pv, beta, gamma));
        x
    }
}
fn usage(c: &mut Case) -> [bool; 9] {
    std::array::from_fn(|t| !OPTIONAL[t] || c.chance(0.5))
}

struct Root<'a> {
    all: &'a All,
    free: &'a [Circuit],
    spec: &'a Spec,
}
impl Root<'_> {
    fn table(&self, t: usize, pis: &[u64]) -> Proof {
        free_proof(&self.free[t], pis)
    }
    fn tables(&self, x: &Claim) -> Vec<Proof> {
        (0..9).map(|t| self.table(t, &x.pis[t])).collect()
    }
    fn prove(&self, ps: &[Proof], x: &Claim) -> Result<Proof, String> {
        attempt(|| {
            let ps: [Proof; 9] = ps.to_vec().try_into().expect("nine tables");
            let p = self.all.verif_prove_root(&ps, &[0; 9], &x.used, &x.pv.public_values())?;
            self.all.verify_root(p.clone())?;
            Ok(p)
        })
    }
    fn check(&self, c: &mut Case, ps: &[Proof], x: &Claim, what: &str) -> R {
        let want = self.spec.judge(x);
        self.check_as(c, ps, x, &want, what)
    }
    fn check_as(&self, c: &mut Case, ps: &[Proof], x: &Claim, want: &Option<String>, what: &str) -> R {
        c.eval();
        let got = self.prove(ps, x);
        c.distinct((what.to_string(), want.clone(), x.used));
        c.log(|| format!("{what}: {want:?} -> {}", if got.is_ok() { "accepted" } else { "refused" }));
        match (got, want) {
            (Ok(p), None) => {
                c.count("segments accepted", 1);
                check!(V::of(&p.public_inputs) == x.pv, "{what}: other public values were exposed");
                Ok(())
            }
            (Err(_), Some(_)) => {
                c.count("segments refused", 1);
                Ok(())
            }
            (Ok(_), Some(w)) => Err(format!("{what}: a proof of the segment was made and verified, despite: {w}")),
            (Err(e), None) => Err(format!("{what}: refused although everything agrees: {e}")),
        }
    }
}

pub fn run(ck: &mut Check) {
    ck.rule("one evaluation = one claim of a segment (a proof of its tables, or tables of free circuits below the root circuit) that was accepted or refused as specified");
    ck.assume("Starky's and plonky2's verifiers of single proofs are trusted. Test parameters: one challenge, one query.");
    ck.hang_limit(500);
    ck.require("segments accepted", 6);
    ck.require("segments refused", 150);
    ck.require("tampered proofs refused", 200);
    let quick = |q: usize, t: usize| if std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough") { t } else { q };

    // Challenges depend on every public value.
    ck.stage("binding", quick(40, 400), binding);

    // Real proofs.
    ck.threads(3);
    ck.stage("proofs", quick(6, 60), proofs);
    ck.stage("recursion", quick(1, 6), recursion);
    ck.threads(8);

    // The root circuit.
    let config = RecursionConfig::test_config();
    let mut all = small_circuits();
    let free: Vec<Circuit> = (0..9).map(|t| free_circuit(&all.verif_final_common(t))).collect();
    for t in 0..9 {
        let x = free_circuit(&all.verif_final_common(t));
        all.verif_set_final_circuit(t, x);
    }
    all.verif_rebuild_layer(0, &config);
    let (ctls, zs) = layout();
    for t in 0..9 {
        assert_eq!(free[t].common.num_public_inputs, ZS + zs[t], "harness: public inputs of {}", TABLE_NAMES[t]);
    }
    let spec = Spec { ctls, zs };
    let root = Root { all: &all, free: &free, spec: &spec };
    ck.stage("root: honest", quick(4, 32), |c| {
        let u = if c.index == 0 { [true; 9] } else { usage(c) };
        let x = spec.honest(c, u);
        root.check(c, &root.tables(&x), &x, "tables that agree")
    });
    let mut c = Case::detached(ck.seed, 9);
    let full = spec.honest(&mut c, [true; 9]);
    let some = {
        let mut u = usage(&mut c);
        u[AFTER] = false;
        u[1 + 2 * c.below(2)] = false;
        spec.honest(&mut c, u)
    };
    let templates: Vec<(Claim, Vec<Proof>)> = [full, some].into_iter().map(|x| (x.clone(), root.tables(&x))).collect();
    // One value of one table differs.
    ck.stage("root: one value of a table differs", 2 * 9 * quick(6, 40), |c| {
        let (x, ps) = &templates[c.index % 2];
        let t = c.index / 2 % 9;
        let mut x = x.clone();
        let (a, b, name) = match c.index / 18 % 6 {
            0 => (0, CAP, "trace cap"),
            1 => (CAP, CAP + 1, "beta"),
            2 => (CAP + 1, CAP + 2, "gamma"),
            3 => (CAP + 2, CAP + 2 + STATE, "challenger before"),
            4 => (CAP + 2 + STATE, ZS, "challenger after"),
            _ => (ZS, ZS + spec.zs[t], "sums"),
        };
        let i = a + c.below(b - a);
        x.pis[t][i] = if c.chance(0.5) { add(x.pis[t][i], 1) } else { c.rng.gen::<u64>() % P };
        // A proof that is made is slow.
        if spec.judge(&x).is_none() && c.chance(0.7) {
            return Ok(());
        }
        let mut ps = ps.clone();
        ps[t] = root.table(t, &x.pis[t]);
        root.check(c, &ps, &x, &format!("{name}[{}] of {} ({}in use)", i - a, TABLE_NAMES[t], if x.used[t] { "" } else { "not " }))
    });
    // Public values that are not those the challenges were made from.
    ck.stage("root: one public value differs", quick(2, 20), |c| {
        for n in names() {
            let (x, ps) = &templates[c.index % 2];
            let mut x = x.clone();
            let w = perturb(c, &mut x.pv, n, true);
            root.check(c, ps, &x, &format!("public values: {w}"))?;
        }
        Ok(())
    });
    // Sums that are right for other public values.
    ck.stage("root: memory of other public values", names().len() * quick(1, 8), |c| {
        let (x, ps) = &templates[c.index % 2];
        let (mut x, mut ps) = (x.clone(), ps.clone());
        let mut other = x.pv.clone();
        let n = names()[c.index % names().len()];
        let w = perturb(c, &mut other, n, true);
        let (beta, gamma) = (x.pis[2][CAP], x.pis[2][CAP + 1]);
        let d = add(public_sum(&other.public_values(), beta, gamma), neg(public_sum(&x.pv.public_values(), beta, gamma)));
        if d == 0 {
            return Ok(());
        }
        for ctl in &spec.ctls {
            if ctl.looked.0 == MEMORY {
                let k = ZS + ctl.looked.1;
                x.pis[MEMORY][k] = add(x.pis[MEMORY][k], d);
            }
        }
        ps[MEMORY] = root.table(MEMORY, &x.pis[MEMORY]);
        root.check(c, &ps, &x, &format!("memory of other public values: {w}"))
    });
    // Which tables are in use, and proofs that are not of the circuits.
    ck.stage("root: usage and invalid proofs", quick(27, 108), |c| {
        let t = c.index % 9;
        let (x, ps) = &templates[c.index / 9 % 2];
        let (mut x, mut ps) = (x.clone(), ps.clone());
        match c.index / 9 % 3 {
            0 => {
                x.used[t] = !x.used[t];
                root.check(c, &ps, &x, &format!("{} said to be {}in use", TABLE_NAMES[t], if x.used[t] { "" } else { "not " }))
            }
            1 => {
                // Nothing of the proof but its public inputs is right.
                let other = free_proof(&root.free[t], &vec![7; x.pis[t].len()]);
                let pis = ps[t].public_inputs.clone();
                ps[t] = other;
                ps[t].public_inputs = pis;
                let want = x.used[t].then(|| "the proof is not valid".to_string());
                if want.is_none() && c.chance(0.7) {
                    return Ok(());
                }
                root.check_as(c, &ps, &x, &want, &format!("an invalid proof of {} ({}in use)", TABLE_NAMES[t], if x.used[t] { "" } else { "not " }))
            }
            _ => {
                // An empty table that is said not to be in use.
                x.used[t] = false;
                x.pis[t][..CAP].fill(0);
                x.pis[t][ZS..].fill(0);
                ps[t] = root.table(t, &x.pis[t]);
                root.check(c, &ps, &x, &format!("{} emptied", TABLE_NAMES[t]))
            }
        }
    });
}

fn binding(c: &mut Case) -> R {
    let v = random(c);
    let caps: Vec<Vec<u64>> = (0..9).map(|_| (0..CAP).map(|_| c.rng.gen::<u64>() % P).collect()).collect();
    let a = challenges(&caps, &v.public_values());
    for n in names() {
        // These are trace caps.
        if n.starts_with("memory") {
            continue;
        }
        let mut w = v.clone();
        let what = perturb(c, &mut w, n, n != "checkpoint hashes");
        let b = challenges(&caps, &w.public_values());
        c.eval();
        c.count("bindings", 1);
        check!(a.0 != b.0 && a.1 != b.1, "the challenges of a segment do not depend on a public value: {what}");
    }
    for t in 0..9 {
        let mut d = caps.clone();
        let i = c.below(CAP);
        d[t][i] = add(d[t][i], 1);
        let b = challenges(&d, &v.public_values());
        check!(a.0 != b.0 && a.1 != b.1, "the challenges of a segment do not depend on the trace of {}", TABLE_NAMES[t]);
    }
    Ok(())
}

type All9 = AllProof<F, Cf, D>;
fn stark() -> &'static AllStark<F, D> {
    static S: OnceLock<AllStark<F, D>> = OnceLock::new();
    S.get_or_init(AllStark::default)
}
fn prove(inputs: &evm_arithmetization::generation::TrimmedGenerationInputs<F>, seg: &evm_arithmetization::GenerationSegmentData) -> Result<All9, String> {
    let mut seg = seg.clone();
    attempt(|| evm_arithmetization::prover::prove::<F, Cf, D>(stark(), &TEST_STARK_CONFIG, inputs.clone(), &mut seg, &mut TimingTree::default(), None))
}
fn verify(p: &All9, initial: bool) -> Result<(), String> {
    attempt(|| verify_proof(stark(), p.clone(), &TEST_STARK_CONFIG, initial))
}
fn leaves(v: &serde_json::Value, at: String, out: &mut Vec<String>) {
    match v {
        serde_json::Value::Object(m) => m.iter().for_each(|(k, x)| leaves(x, format!("{at}/{k}"), out)),
        serde_json::Value::Array(m) => m.iter().enumerate().for_each(|(k, x)| leaves(x, format!("{at}/{k}"), out)),
        serde_json::Value::Number(_) => out.push(at),
        _ => (),
    }
}
/// The same proof with one number changed.
fn tamper(c: &mut Case, p: &All9) -> Option<(All9, String)> {
    let mut q = p.clone();
    let t = c.below(9);
    let x = q.multi_proof.stark_proofs[t].as_mut()?;
    let mut v = serde_json::to_value(&x.proof).ok()?;
    // By kind of leaf, so that the few in front are as likely as the many.
    let mut all = vec![];
    leaves(&v, String::new(), &mut all);
    // Another nonce may be as good.
    all.retain(|p| !p.contains("pow_witness"));
    let kind = |p: &str| p.chars().filter(|c| !c.is_ascii_digit()).collect::<String>();
    let mut kinds: Vec<String> = all.iter().map(|p| kind(p)).collect();
    kinds.sort();
    kinds.dedup();
    let k = pick(c, &kinds);
    all.retain(|p| kind(p) == k);
    let at = pick(c, &all);
    let old = v.pointer(&at)?.as_u64()?;
    *v.pointer_mut(&at)? = serde_json::Value::from(if c.chance(0.5) { (old + 1) % P } else { c.rng.gen::<u64>() % P });
    x.proof = serde_json::from_value(v).ok()?;
    Some((q, format!("{} of {}", at, TABLE_NAMES[t])))
}
/// Segments of real blocks are proven, verified, and tampered with.
fn proofs(c: &mut Case) -> R {
    let (inputs, log, what) = if c.index == 0 {
        (empty_payload(c.below(1 << 20) as u64), 10, "the empty payload".to_string())
    } else {
        // Not the precompiles, whose cases take more.
        while c.index % 4 == 1 {
            c.index += 4 * c.below(1000) + 1;
        }
        // Public values have 32 bits for the difficulty.
        let inputs = loop {
            let (bs, _) = c01::any_batch(c);
            let i = bs[c.below(bs.len())].inputs();
            if i.block_metadata.block_difficulty.bits() <= 32 {
                break i;
            }
        };
        (inputs, pick(c, &[11, 12, 13]), "a batch".to_string())
    };
    let wanted = c.below(20);
    let mut first = true;
    let (n, v) = c01::segments(&inputs, Some(log), |i| {
        let w = i == 0 && wanted % 4 == 0 || i == 1 + wanted || std::mem::take(&mut first) && wanted % 4 == 1;
        w
    })?;
    let mut done = vec![];
    for (i, inputs, seg) in v.into_iter().take(2) {
        let what = format!("segment {i} of {n} of {what}");
        let p = prove(&inputs, &seg).map_err(|e| format!("{what}: no proof: {e}"))?;
        c.eval();
        c.count("segments proven", 1);
        c.count("segments accepted", 1);
        c.distinct((i, n, p.table_in_use, p.degree_bits(&TEST_STARK_CONFIG)));
        c.sample(|| format!("{what}: degrees {:?}", p.degree_bits(&TEST_STARK_CONFIG)));
        verify(&p, i == 0).map_err(|e| format!("{what}: the proof is refused: {e}"))?;
        if i > 0 {
            check!(verify(&p, true).is_err(), "{what}: accepted as the first one, with other memory than the initial one");
        }
        done.push((i, p));
    }
    if done.len() == 2 && done[0].0 == 0 {
        let v: Vec<All9> = done.iter().map(|x| x.1.clone()).collect();
        attempt(|| verify_all_proofs(stark(), &v, &TEST_STARK_CONFIG)).map_err(|e| format!("proofs in a row are refused: {e}"))?;
    }
    let refused = |c: &mut Case, p: &All9, initial: bool, what: &str| -> R {
        c.eval();
        c.count("tampered proofs refused", 1);
        c.distinct(what.to_string());
        check!(verify(p, initial).is_err(), "a proof is accepted with {what}");
        Ok(())
    };
    for (i, p) in &done {
        let initial = *i == 0;
        let pv = V::from_public_values(&p.public_values);
        for n in names() {
            let mut w = pv.clone();
            let what = perturb(c, &mut w, n, !matches!(n, "memory before" | "memory after" | "checkpoint hashes"));
            let mut q = p.clone();
            q.public_values = w.public_values();
            refused(c, &q, initial, &format!("other public values ({what})"))?;
        }
        for _ in 0..30 {
            if let Some((q, what)) = tamper(c, p) {
                refused(c, &q, initial, &format!("another value ({what})"))?;
            }
        }
        for t in 0..9 {
            let mut q = p.clone();
            q.table_in_use[t] ^= true;
            // That flag only matters for tables that are optional.
            if OPTIONAL[t] {
                refused(c, &q, initial, &format!("{} said to be {}in use", TABLE_NAMES[t], if q.table_in_use[t] { "" } else { "not " }))?;
            }
            let mut q = p.clone();
            if q.multi_proof.stark_proofs[t].take().is_some() {
                refused(c, &q, initial, &format!("no proof of {}", TABLE_NAMES[t]))?;
                q.table_in_use[t] = false;
                refused(c, &q, initial, &format!("no proof of {}, not in use", TABLE_NAMES[t]))?;
            }
            let mut q = p.clone();
            let u = (t + 1 + c.below(8)) % 9;
            if q.multi_proof.stark_proofs[t].is_some() && q.multi_proof.stark_proofs[u].is_some() {
                q.multi_proof.stark_proofs.swap(t, u);
                refused(c, &q, initial, &format!("the proofs of {} and {} exchanged", TABLE_NAMES[t], TABLE_NAMES[u]))?;
            }
        }
    }
    if let [(i, p), (j, q)] = &done[..] {
        for t in 0..9 {
            let mut x = p.clone();
            if let (Some(a), Some(b)) = (&mut x.multi_proof.stark_proofs[t], &q.multi_proof.stark_proofs[t]) {
                *a = b.clone();
                refused(c, &x, *i == 0, &format!("the proof of {} from segment {j} instead of {i}", TABLE_NAMES[t]))?;
            }
        }
        let mut x = p.clone();
        x.public_values = q.public_values.clone();
        refused(c, &x, *i == 0, "the public values of another segment")?;
    }
    Ok(())
}

/// From real tables to the root.
fn recursion(c: &mut Case) -> R {
    let inputs = empty_payload(1 + c.below(1 << 20) as u64);
    let (n, v) = c01::segments(&inputs, Some(10), |_| true)?;
    let mut ps = vec![];
    for (_, inputs, seg) in &v {
        ps.push(prove(inputs, seg)?);
    }
    check!(n == ps.len() && n > 1, "harness: {n} segments");
    let mut r = vec![(usize::MAX, 0); 9];
    for p in &ps {
        for (t, d) in p.degree_bits(&TEST_STARK_CONFIG).iter().enumerate() {
            if let Some(d) = d {
                r[t] = (r[t].0.min(*d), r[t].1.max(*d + 1));
            }
        }
    }
    let ranges: Vec<_> = r.into_iter().map(|(a, b)| if b == 0 { 7..8 } else { a..b }).collect();
    let all = circuits(&ranges.try_into().expect("nine tables"));
    let mut out = vec![];
    for (i, p) in ps.iter().enumerate() {
        let what = format!("segment {i}");
        let s = attempt(|| all.prove_segment_with_all_proofs(p, &TEST_STARK_CONFIG, None)).map_err(|e| format!("{what}: no recursive proof: {e}"))?;
        let x = s.proof_with_pvs.intern.clone();
        attempt(|| all.verify_root(x.clone())).map_err(|e| format!("{what}: the recursive proof is refused: {e}"))?;
        c.eval();
        c.count("segments accepted", 1);
        check!(V::of(&x.public_inputs) == V::from_public_values(&p.public_values), "{what}: other public values were exposed");
        check!(s.proof_with_pvs.public_values == p.public_values, "{what}: other public values were returned");
        // Its public inputs cannot be others.
        for _ in 0..20 {
            let mut y = x.clone();
            let k = c.below(y.public_inputs.len());
            y.public_inputs[k] += F::ONE;
            c.eval();
            c.count("tampered proofs refused", 1);
            check!(attempt(|| all.verify_root(y.clone())).is_err(), "{what}: accepted with another public input {k}");
        }
        // The tables cannot be proven for other public values.
        let mut q = p.clone();
        let mut w = V::from_public_values(&p.public_values);
        let n = pick(c, &["memory before", "memory after"]);
        let change = perturb(c, &mut w, n, false);
        q.public_values = w.public_values();
        c.eval();
        c.count("tampered proofs refused", 1);
        let got = attempt(|| {
            let s = all.prove_segment_with_all_proofs(&q, &TEST_STARK_CONFIG, None)?;
            all.verify_root(s.proof_with_pvs.intern)
        });
        check!(got.is_err(), "{what}: proven with {change}");
        out.push(s);
    }
    let got = attempt(|| {
        let p = all.prove_segment_aggregation(&out[0], &out[1])?;
        all.verify_segment_aggregation(&p.proof_with_pvs.intern)
    });
    got.map_err(|e| format!("segments that follow each other: {e}"))?;
    let got = attempt(|| {
        let p = all.prove_segment_aggregation(&out[1], &out[0])?;
        all.verify_segment_aggregation(&p.proof_with_pvs.intern)
    });
    check!(got.is_err(), "segments in the wrong order are accepted");
    Ok(())
}
