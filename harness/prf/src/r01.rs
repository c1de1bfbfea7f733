//! R01: a proof of an aggregation layer stands for a chain of the proofs below
//! it that follow each other, and for nothing else.
//!
//! The circuits below a layer are replaced by ones that accept any public
//! inputs, so that the layer is given every kind of children; whether the layer
//! makes a proof that verifies is compared with a specification of the links.
use evm_arithmetization::fixed_recursive_verifier::{ProverOutputData, RecursionConfig};
use evm_arithmetization::proof::FinalPublicValues;
use evm_arithmetization::testing_utils::TEST_STARK_CONFIG;
use evm_arithmetization::{AllStark, SegmentDataIterator};
use plonky2::field::types::PrimeField64;
use plonky2::util::timing::TimingTree;
use vh_core::*;

use crate::common::*;

/// What is known of the machine: where it starts and stops.
pub struct Machine {
    pub main: u64,
    pub halt: u64,
    pub initial_memory: Vec<u64>,
}
const EMPTY_TRIE: [u8; 32] = [
    0x56, 0xe8, 0x1f, 0x17, 0x1b, 0xcc, 0x55, 0xa6, 0xff, 0x83, 0x45, 0xe6, 0x92, 0xc0, 0xf8, 0x6e, 0x5b, 0x48, 0xe0, 0x1b, 0x99, 0x6c, 0xad,
    0xc0, 0x01, 0x62, 0x2f, 0xb5, 0xe3, 0x63, 0xb4, 0x21,
];

type Viol = Option<String>;
fn same(a: &V, n: &str, b: &V, m: &str) -> Viol {
    (a.get(n) != b.get(m)).then(|| format!("{n} / {m}"))
}
fn first(v: impl IntoIterator<Item = Viol>) -> Viol {
    v.into_iter().flatten().next()
}
const REGS: [&str; 6] = ["pc", "kernel", "stack len", "stack top", "context", "gas"];
const SHARED: [&str; 17] = [
    "beneficiary", "timestamp", "number", "difficulty", "random", "gas limit", "chain id", "base fee", "gas used", "blob gas used",
    "excess blob gas", "beacon root", "bloom", "oldest hash", "previous hashes", "parent hash", "current hash",
];
const ROOTS: [&str; 3] = ["state", "transactions", "receipts"];

/// Two segments of the same batch, and their aggregation. `None`: follows the
/// specification.
pub fn segments(l: &V, r: Option<&V>, o: &V) -> Viol {
    // Everything but registers and memory describes the batch.
    let shared: Vec<&str> = FIELDS.iter().map(|x| x.0).take_while(|n| *n != "before: pc").collect();
    let mut v: Vec<Viol> = shared.iter().map(|n| same(o, n, l, n)).collect();
    let last = r.unwrap_or(l);
    for x in REGS {
        v.push(same(o, &format!("before: {x}"), l, &format!("before: {x}")));
        v.push(same(o, &format!("after: {x}"), last, &format!("after: {x}")));
    }
    v.push(same(o, "memory before", l, "memory before"));
    v.push(same(o, "memory after", last, "memory after"));
    if let Some(r) = r {
        v.extend(shared.iter().map(|n| same(o, n, r, n)));
        v.extend(REGS.iter().map(|x| same(l, &format!("after: {x}"), r, &format!("before: {x}"))));
        v.push(same(l, "memory after", r, "memory before"));
    }
    first(v)
}
/// A batch runs from the start of the machine to its end.
fn whole(m: &Machine, x: &V) -> Viol {
    for (n, want) in [
        ("before: pc", m.main),
        ("after: pc", m.halt),
        ("before: kernel", 1),
        ("after: kernel", 1),
        ("before: stack len", 0),
        ("after: stack len", 0),
        ("before: context", 0),
        ("after: context", 0),
        ("before: gas", 0),
    ] {
        if x.one(n) != want {
            return Some(n.to_string());
        }
    }
    (x.get("memory before") != m.initial_memory).then(|| "initial memory".to_string())
}
/// Two batches of the same block.
pub fn batches(m: &Machine, l: &V, r: &V, o: &V) -> Viol {
    let mut v = vec![whole(m, l), whole(m, r)];
    for n in SHARED.iter().copied().chain(["checkpoint root", "checkpoint hashes"]) {
        v.push(same(o, n, l, n));
        v.push(same(o, n, r, n));
    }
    for x in ROOTS {
        let (a, b) = (format!("roots before: {x}"), format!("roots after: {x}"));
        v.push(same(o, &a, l, &a));
        v.push(same(l, &b, r, &a));
        v.push(same(o, &b, r, &b));
    }
    for x in ["txn", "gas"] {
        let (a, b) = (format!("{x} before"), format!("{x} after"));
        v.push(same(o, &a, l, &a));
        v.push(same(l, &b, r, &a));
        v.push(same(o, &b, r, &b));
    }
    for x in REGS {
        v.push(same(o, &format!("before: {x}"), l, &format!("before: {x}")));
        v.push(same(o, &format!("after: {x}"), r, &format!("after: {x}")));
    }
    first(v)
}
/// The batches of a block, after its parent (`None`: after the checkpoint).
pub fn block(p: Option<&V>, a: &V, o: &V) -> Viol {
    let mut v: Vec<Viol> = vec![];
    for n in SHARED.iter().copied().chain(["checkpoint root", "checkpoint hashes", "txn before", "txn after", "gas before", "gas after"]) {
        v.push(same(o, n, a, n));
    }
    for x in ROOTS {
        v.push(same(o, &format!("roots after: {x}"), a, &format!("roots after: {x}")));
    }
    let fail = |c: bool, n: &str| c.then(|| n.to_string());
    v.push(fail(a.one("txn before") != 0, "first transaction"));
    v.push(fail(a.one("gas before") != 0, "first gas"));
    v.push(fail(a.one("gas after") != a.one("gas used"), "gas used"));
    for x in ["transactions", "receipts"] {
        v.push(fail(a.get(&format!("roots before: {x}")) != limbs(EMPTY_TRIE), "empty tries"));
    }
    match p {
        None => {
            v.push(same(a, "roots before: state", a, "checkpoint root"));
            v.push(same(o, "roots before: state", a, "checkpoint root"));
            v.push(fail(a.get("checkpoint hashes") != hash(a.hashes()), "checkpoint hashes of the first block"));
        }
        Some(p) => {
            for x in ROOTS {
                v.push(same(o, &format!("roots before: {x}"), p, &format!("roots before: {x}")));
            }
            v.push(same(p, "roots after: state", a, "roots before: state"));
            for n in ["checkpoint root", "checkpoint hashes", "chain id"] {
                v.push(same(p, n, a, n));
            }
            v.push(fail((p.one("number") + 1) % P != a.one("number"), "number"));
            let diff = (a.one("timestamp") + P - p.one("timestamp")) % P;
            v.push(fail(diff >> 32 != 0, "timestamp"));
            v.push(fail(p.hashes()[8..] != a.hashes()[..255 * 8], "window of hashes"));
            v.push(same(p, "current hash", a, "parent hash"));
        }
    }
    first(v)
}
/// The public inputs of the wrapper of a block; `None` when it has none.
pub fn wrapper(b: &V) -> Option<Vec<u64>> {
    if b.get("roots before: state") != b.get("checkpoint root") {
        return None;
    }
    let mut v = b.get("chain id").to_vec();
    v.extend(b.get("checkpoint root"));
    v.extend(b.get("roots after: state"));
    v.extend(b.get("checkpoint hashes"));
    let mut h = b.hashes()[8..].to_vec();
    h.extend(b.get("current hash"));
    v.extend(hash(&h));
    Some(v)
}

// Honest chains.

fn word(c: &mut Case) -> u64 {
    match c.below(6) {
        0 => c.below(3) as u64,
        1 => u32::MAX as u64 - c.below(3) as u64,
        _ => c.rng.gen::<u32>() as u64,
    }
}
pub fn random(c: &mut Case) -> V {
    let mut v = V((0..size()).map(|_| word(c)).collect());
    for n in ["memory before", "memory after", "checkpoint hashes"] {
        let (a, b) = offsets()[n];
        for i in a..b {
            v.0[i] = c.rng.gen::<u64>() % P;
        }
    }
    for n in ["before: kernel", "after: kernel"] {
        v.set(n, &[c.below(2) as u64]);
    }
    v
}
fn continued(c: &mut Case, l: &V) -> V {
    let mut r = random(c);
    for (n, _) in FIELDS.iter().take_while(|x| x.0 != "before: pc") {
        r.copy(n, l, n);
    }
    for x in REGS {
        r.copy(&format!("before: {x}"), l, &format!("after: {x}"));
    }
    r.copy("memory before", l, "memory after");
    r
}
/// The segments of a batch.
fn honest_segments(c: &mut Case, m: &Machine, b: &V, n: usize) -> Vec<V> {
    let mut v = vec![b.clone()];
    for i in 1..n {
        let prev = v.last().unwrap().clone();
        let mut next = continued(c, &prev);
        if i == n - 1 {
            for x in REGS {
                next.copy(&format!("after: {x}"), b, &format!("after: {x}"));
            }
        }
        v.push(next);
    }
    // Intermediate states: anything.
    for i in 0..n.saturating_sub(1) {
        let mid = random(c);
        for x in REGS {
            v[i].copy(&format!("after: {x}"), &mid, &format!("after: {x}"));
            let y = v[i].clone();
            v[i + 1].copy(&format!("before: {x}"), &y, &format!("after: {x}"));
        }
    }
    let _ = m;
    v
}
fn complete(m: &Machine, x: &mut V) {
    for (n, w) in [
        ("before: pc", m.main),
        ("after: pc", m.halt),
        ("before: kernel", 1),
        ("after: kernel", 1),
        ("before: stack len", 0),
        ("after: stack len", 0),
        ("before: context", 0),
        ("after: context", 0),
        ("before: gas", 0),
    ] {
        x.set(n, &[w]);
    }
    x.set("before: stack top", &[0; 8]);
    x.set("memory before", &m.initial_memory);
}
/// The batches of a block after `p`.
fn honest_batches(c: &mut Case, m: &Machine, p: Option<&V>, n: usize) -> Vec<V> {
    let mut h = random(c);
    for x in ["transactions", "receipts"] {
        h.set(&format!("roots before: {x}"), &limbs(EMPTY_TRIE));
    }
    h.set("txn before", &[0]);
    h.set("gas before", &[0]);
    match p {
        None => {
            h.set("number", &[1 + c.below(1 << 30) as u64]);
            let t = c.below(1 << 31) as u64;
            h.set("timestamp", &[t]);
            let x = h.clone();
            h.copy("roots before: state", &x, "checkpoint root");
            h.set("checkpoint hashes", &hash(x.hashes()));
        }
        Some(p) => {
            h.copy("roots before: state", p, "roots after: state");
            for n in ["checkpoint root", "checkpoint hashes", "chain id"] {
                h.copy(n, p, n);
            }
            h.set("number", &[p.one("number") + 1]);
            let t = p.one("timestamp") + pick(c, &[0, 1, 12, 0x1000, u32::MAX as u64 - p.one("timestamp")]);
            h.set("timestamp", &[t]);
            let mut w = p.hashes()[8..].to_vec();
            w.extend(p.get("current hash"));
            let (a, b) = (offsets()["oldest hash"].0, offsets()["parent hash"].1);
            h.0[a..b].copy_from_slice(&w);
        }
    }
    complete(m, &mut h);
    let mut v = vec![h];
    for _ in 1..n {
        let prev = v.last().unwrap().clone();
        let mut x = random(c);
        for n in SHARED.iter().copied().chain(["checkpoint root", "checkpoint hashes"]) {
            x.copy(n, &prev, n);
        }
        for r in ROOTS {
            x.copy(&format!("roots before: {r}"), &prev, &format!("roots after: {r}"));
        }
        for r in ["txn", "gas"] {
            x.copy(&format!("{r} before"), &prev, &format!("{r} after"));
        }
        complete(m, &mut x);
        v.push(x);
    }
    let used = v.last().unwrap().one("gas after");
    for x in &mut v {
        x.set("gas used", &[used]);
    }
    v
}
pub fn pick<T: Clone>(c: &mut Case, v: &[T]) -> T {
    v[c.below(v.len())].clone()
}
fn joined(l: &V, r: &V) -> V {
    let mut o = r.clone();
    for x in ROOTS {
        o.copy(&format!("roots before: {x}"), l, &format!("roots before: {x}"));
    }
    for x in ["txn before", "gas before", "memory before"] {
        o.copy(x, l, x);
    }
    for x in REGS {
        o.copy(&format!("before: {x}"), l, &format!("before: {x}"));
    }
    o
}

/// Another value for one element of a field.
pub fn perturb(c: &mut Case, v: &mut V, n: &str, small: bool) -> String {
    let (a, b) = offsets()[n];
    let i = pick(c, &[a, b - 1, a + c.clone_below(b - a)]);
    let old = v.0[i];
    let p32 = 1u64 << 32;
    let mut new = match c.below(6) {
        0 => (old + 1) % P,
        1 => (old + P - 1) % P,
        2 => old ^ (1 << c.below(32)),
        3 => (old + p32) % P,
        4 => c.rng.gen::<u32>() as u64,
        _ => 0,
    } % P;
    if small {
        new &= p32 - 1;
    }
    if new == old {
        new = old ^ 1;
    }
    v.0[i] = new;
    format!("{n}[{}]: {old} -> {new}", i - a)
}
trait Below {
    fn clone_below(&self, n: usize) -> usize;
}
impl Below for Case {
    fn clone_below(&self, n: usize) -> usize {
        self.rng.clone().gen_range(0..n)
    }
}

pub fn names() -> Vec<&'static str> {
    FIELDS.iter().map(|x| x.0).filter(|n| *n != "end").collect()
}

struct Layer<'a> {
    all: &'a All,
    m: &'a Machine,
    /// Makes the children.
    free: &'a Circuit,
}
impl Layer<'_> {
    fn child(&self, v: &V) -> Proof {
        let mut pis = v.0.clone();
        pis.extend(vk_pis(&self.free.verifier_only));
        free_proof(self.free, &pis)
    }
    fn pvs(&self, p: &Proof, v: &V) -> Pvs {
        Pvs { public_values: v.public_values(), intern: p.clone() }
    }
    fn segment(&self, p: &Proof, v: &V, is_agg: bool, is_dummy: bool) -> ProverOutputData<F, Cf, D> {
        ProverOutputData { is_agg, is_dummy, proof_with_pvs: self.pvs(p, v) }
    }
    /// The public inputs of a proof must be those specified.
    fn exposed(&self, p: &Proof, o: &V, but: &[&str], what: &str) -> R {
        let got = V::of(&p.public_inputs);
        for n in names() {
            if !but.contains(&n) {
                check!(got.get(n) == o.get(n), "{what}: public input {n}: observed {:?}, specified {:?}", got.get(n), o.get(n));
            }
        }
        Ok(())
    }
}
/// Compares the outcome with the specification.
fn judge(c: &mut Case, got: &Result<Proof, String>, spec: &Viol, what: &str) -> R {
    c.eval();
    match (got, spec) {
        (Ok(_), None) => c.count("chains accepted", 1),
        (Err(_), Some(_)) => c.count("chains refused", 1),
        (Ok(_), Some(v)) => return Err(format!("{what}: a proof was made and verified although the chain breaks the link '{v}'")),
        (Err(e), None) => return Err(format!("{what}: refused although every link holds: {e}")),
    }
    c.distinct((what.to_string(), spec.clone()));
    c.log(|| format!("{what}: {spec:?} -> {}", if got.is_ok() { "accepted" } else { "refused" }));
    Ok(())
}
/// Memory caps of batches and blocks, and registers of blocks, are leftovers.
const FREE_BATCH: [&str; 2] = ["memory before", "memory after"];
const FREE_BLOCK: [&str; 14] = [
    "memory before", "memory after", "before: pc", "before: kernel", "before: stack len", "before: stack top", "before: context",
    "before: gas", "after: pc", "after: kernel", "after: stack len", "after: stack top", "after: context", "after: gas",
];

pub fn run(ck: &mut Check) {
    ck.rule("A proof of the segment aggregation, batch aggregation, block, wrapper or two-to-one circuit is made and verifies exactly for children that are linked as specified (same batch/block, roots, transaction and gas counters, registers, memory, hashes, numbers, timestamps and checkpoint), and exposes the public values specified for them.");
    ck.assume("Children are stand-ins: a circuit without constraints of the same shape as the layer below, so that they can expose any public values. Plonky2's recursive verifier is trusted.");
    ck.assume("Test parameters (TEST_STARK_CONFIG, TEST_RECURSION_CONFIG): one challenge, few queries.");
    ck.hang_limit(500);
    ck.require("chains accepted", 20);
    ck.require("chains refused", 60);
    let config = RecursionConfig::test_config();
    let t0 = std::time::Instant::now();
    let time = |s: &str| {
        if std::env::var_os("VH_TIME").is_some() {
            println!("[{:?}] {s}", t0.elapsed())
        }
    };
    let (mut all, m) = std::thread::scope(|s| {
        let m = s.spawn(|| {
            let stark = AllStark::<F, D>::default();
            let inputs = empty_payload(1);
            let (tr, mut d) = SegmentDataIterator::<F>::new(&inputs, Some(20)).next().unwrap().unwrap();
            let p = evm_arithmetization::prover::prove::<F, Cf, D>(&stark, &TEST_STARK_CONFIG, tr, &mut d, &mut TimingTree::default(), None)
                .expect("proof of the empty payload")
                .public_values;
            Machine {
                main: p.registers_before.program_counter.as_u64(),
                halt: p.registers_after.program_counter.as_u64(),
                initial_memory: p.mem_before.mem_cap.iter().flatten().map(|x| x.as_u64()).collect(),
            }
        });
        let all = small_circuits();
        (all, m.join().expect("machine"))
    });
    time("circuits");
    let quick = |q: usize, t: usize| if std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough") { t } else { q };
    let n = names().len();

    // Segments.
    all.root.circuit = free_circuit(&all.root.circuit.common);
    for k in 1..6 {
        all.verif_rebuild_layer(k, &config);
    }
    time("free root");
    {
        let root = free_circuit(&all.root.circuit.common);
        let ly = Layer { all: &all, m: &m, free: &root };
        ck.stage("chain of two blocks from segments", quick(1, 6), |c| end_to_end(c, &ly));
        time("chain");
        ck.stage("segments: honest", quick(4, 24), |c| segments_honest(c, &ly));
        let cases = field_cases() * quick(1, 4);
        let shared = {
            let mut c = Case::detached(ck.seed, 1);
            let l = random(&mut c);
            let r = continued(&mut c, &l);
            let (pl, pr) = (ly.child(&l), ly.child(&r));
            Pair { o: join_segments(&l, &r), l: (l, pl), r: (r, pr) }
        };
        ck.stage("segments: one field differs", cases + quick(1, 3), |c| segments_field(c, &ly, &shared, cases));
        time("segments");
        ck.stage("segments: foreign verifier data", 2, |c| foreign_segments(c, &ly));
    }
    // Batches.
    all.segment_aggregation.circuit = free_circuit(&all.segment_aggregation.circuit.common);
    all.verif_rebuild_layer(2, &config);
    {
        let free = free_circuit(&all.segment_aggregation.circuit.common);
        let ly = Layer { all: &all, m: &m, free: &free };
        ck.stage("batches: honest", quick(4, 24), |c| batches_honest(c, &ly));
        let cases = field_cases() * quick(1, 4);
        let shared = {
            let mut c = Case::detached(ck.seed, 2);
            let v = honest_batches(&mut c, ly.m, None, 2);
            let (l, r) = (v[0].clone(), v[1].clone());
            let (pl, pr) = (ly.child(&l), ly.child(&r));
            Pair { o: joined(&l, &r), l: (l, pl), r: (r, pr) }
        };
        ck.stage("batches: one field differs", cases + quick(1, 3), |c| batches_field(c, &ly, &shared, cases));
        ck.stage("batches: foreign verifier data", 4, |c| foreign_batches(c, &ly));
        time("batches");
    }
    // Blocks.
    all.batch_aggregation.circuit = free_circuit(&all.batch_aggregation.circuit.common);
    all.verif_rebuild_layer(3, &config);
    {
        let free = free_circuit(&all.batch_aggregation.circuit.common);
        let ly = Layer { all: &all, m: &m, free: &free };
        ck.stage("blocks: honest", quick(4, 24), |c| blocks_honest(c, &ly));
        let cases = field_cases() * quick(1, 4);
        let shared = {
            let mut c = Case::detached(ck.seed, 3);
            let first = honest_batches(&mut c, ly.m, None, 1)[0].clone();
            let next = honest_batches(&mut c, ly.m, Some(&first), 1)[0].clone();
            let (p, q) = (ly.child(&first), ly.child(&next));
            let block = prove_block(&ly, None, (&p, &first));
            // If it was refused, another stage reports it.
            let block = block.unwrap_or_else(|_| p.clone());
            Chain { first: (first, p), block, next: (next, q) }
        };
        ck.stage("blocks: one field differs", cases + quick(1, 3), |c| blocks_field(c, &ly, &shared, cases));
        ck.stage("blocks: foreign verifier data", 4, |c| foreign_blocks(c, &ly));
        time("blocks");
    }
    // Wrappers.
    all.block.circuit = free_circuit(&all.block.circuit.common);
    all.verif_rebuild_layer(4, &config);
    {
        let free = free_circuit(&all.block.circuit.common);
        let ly = Layer { all: &all, m: &m, free: &free };
        ck.stage("wrappers", quick(2 * n, 8 * n), |c| wrappers(c, &ly));
        ck.stage("wrappers: foreign verifier data", 2, |c| foreign_wrapper(c, &ly));
        time("wrappers");
    }
    // Pairs.
    all.block_wrapper.circuit = free_circuit(&all.block_wrapper.circuit.common);
    all.verif_rebuild_layer(5, &config);
    {
        let free = free_circuit(&all.block_wrapper.circuit.common);
        let ly = Layer { all: &all, m: &m, free: &free };
        ck.stage("pairs", quick(4, 32), |c| pairs(c, &ly));
        time("pairs");
    }
}

fn aggregate(ly: &Layer, l: &ProverOutputData<F, Cf, D>, r: &ProverOutputData<F, Cf, D>) -> Result<Proof, String> {
    attempt(|| {
        let p = ly.all.prove_segment_aggregation(l, r)?.proof_with_pvs.intern;
        ly.all.verify_segment_aggregation(&p)?;
        Ok(p)
    })
}
fn join_segments(l: &V, r: &V) -> V {
    let mut o = l.clone();
    for x in REGS {
        o.copy(&format!("after: {x}"), r, &format!("after: {x}"));
    }
    o.copy("memory after", r, "memory after");
    o
}
fn segments_honest(c: &mut Case, ly: &Layer) -> R {
    let mut first = random(c);
    let n = c.index % 4 + 1;
    if n == 1 {
        let p = ly.child(&first);
        let got = aggregate(ly, &ly.segment(&p, &first, false, false), &ly.segment(&p, &random(c), false, true));
        judge(c, &got, &segments(&first, None, &first), "one segment")?;
        return ly.exposed(&got.unwrap(), &first, &[], "one segment");
    }
    let mut acc = (ly.child(&first), false);
    let mut right = None;
    for i in 1..n {
        let next = continued(c, &first);
        let p = ly.child(&next);
        if i == 2 && n == 4 {
            // Keep it for an aggregation on the right.
            right = Some((p, next));
            let next2 = continued(c, &right.as_ref().unwrap().1.clone());
            let p2 = ly.child(&next2);
            let (rp, rv) = right.clone().unwrap();
            let got = aggregate(ly, &ly.segment(&rp, &rv, false, false), &ly.segment(&p2, &next2, false, false));
            let o = join_segments(&rv, &next2);
            judge(c, &got, &segments(&rv, Some(&next2), &o), "two segments")?;
            let o2 = join_segments(&first, &o);
            let got = aggregate(ly, &ly.segment(&acc.0, &first, acc.1, false), &ly.segment(&got.unwrap(), &o, true, false));
            judge(c, &got, &segments(&first, Some(&o), &o2), "two aggregations of segments")?;
            return ly.exposed(&got.unwrap(), &o2, &[], "two aggregations of segments");
        }
        let o = join_segments(&first, &next);
        let got = aggregate(ly, &ly.segment(&acc.0, &first, acc.1, false), &ly.segment(&p, &next, false, false));
        judge(c, &got, &segments(&first, Some(&next), &o), "segments in a row")?;
        acc = (got.unwrap(), true);
        ly.exposed(&acc.0, &o, &[], "segments in a row")?;
        first = o;
    }
    if n == 3 {
        // Only a segment on its own may be completed by a dummy.
        let got = aggregate(ly, &ly.segment(&acc.0, &first, true, false), &ly.segment(&ly.child(&first), &first, false, true));
        judge(c, &got, &Some("a dummy after an aggregation".into()), "a dummy after an aggregation")?;
        // A segment proof is not an aggregation, nor the other way round.
        let p = ly.child(&continued(c, &first));
        let next = V::of(&p.public_inputs);
        let got = aggregate(ly, &ly.segment(&acc.0, &first, false, false), &ly.segment(&p, &next, false, false));
        judge(c, &got, &Some("an aggregation as a segment".into()), "an aggregation as a segment")?;
        let got = aggregate(ly, &ly.segment(&acc.0, &first, true, false), &ly.segment(&p, &next, true, false));
        judge(c, &got, &Some("a segment as an aggregation".into()), "a segment as an aggregation")?;
    }
    Ok(())
}
/// Two children that follow each other, with their proofs.
#[derive(Clone)]
struct Pair {
    l: (V, Proof),
    r: (V, Proof),
    o: V,
}
/// Changes one field of the left child, of the right child, or of the result.
/// The first cases do it to the children, the others to the result (which is
/// cheaper: all fields in each).
fn one_field(c: &mut Case, ly: &Layer, pair: &Pair, at: Option<(usize, usize)>, spec: impl Fn(&V, &V, &V) -> Viol, go: impl Fn(&mut Case, (&V, &Proof), (&V, &Proof), &V, &str) -> R) -> R {
    let ns = names();
    match at {
        Some((i, side)) => {
            let mut x = if side == 0 { pair.l.0.clone() } else { pair.r.0.clone() };
            let what = format!("{} {}", ["left", "right"][side], perturb(c, &mut x, ns[i], false));
            // Proofs that are made are slow, and less telling.
            let legal = if side == 0 { spec(&x, &pair.r.0, &pair.o) } else { spec(&pair.l.0, &x, &pair.o) }.is_none();
            if legal && c.chance(0.8) {
                return Ok(());
            }
            let p = ly.child(&x);
            if side == 0 {
                go(c, (&x, &p), (&pair.r.0, &pair.r.1), &pair.o, &what)
            } else {
                go(c, (&pair.l.0, &pair.l.1), (&x, &p), &pair.o, &what)
            }
        }
        None => {
            for n in ns {
                let mut o = pair.o.clone();
                let what = format!("result {}", perturb(c, &mut o, n, true));
                go(c, (&pair.l.0, &pair.l.1), (&pair.r.0, &pair.r.1), &o, &what)?;
            }
            Ok(())
        }
    }
}
fn field_cases() -> usize {
    2 * names().len()
}
fn place(c: &Case, cases: usize) -> Option<(usize, usize)> {
    let n = names().len();
    (c.index < cases).then(|| (c.index % n, c.index / n % 2))
}
fn segments_field(c: &mut Case, ly: &Layer, pair: &Pair, cases: usize) -> R {
    let at = place(c, cases);
    // Also when the right-hand side is a dummy, from time to time.
    let dummy = c.chance(0.15);
    let pair = if dummy { &Pair { l: pair.l.clone(), r: pair.r.clone(), o: pair.l.0.clone() } } else { pair };
    let spec = |l: &V, r: &V, o: &V| segments(l, (!dummy).then_some(r), o);
    one_field(c, ly, pair, at, spec, |c, l, r, o, what| {
        let spec = spec(l.0, r.0, o);
        // The result's values are put together from those declared for its sides.
        let got = aggregate(ly, &ly.segment(l.1, o, false, false), &ly.segment(r.1, o, false, dummy));
        let what = format!("segments{}: {what}", if dummy { " (dummy)" } else { "" });
        judge(c, &got, &spec, &what)?;
        if let Ok(p) = got {
            ly.exposed(&p, o, &[], &what)?;
        }
        Ok(())
    })
}
/// A batch of `n` segments.
fn prove_segments(c: &mut Case, ly: &Layer, b: &V, n: usize) -> R<Proof> {
    let v = honest_segments(c, ly.m, b, n);
    let mut acc: Option<(Proof, V, bool)> = None;
    for x in &v {
        let p = ly.child(x);
        acc = Some(match acc {
            None => (p, x.clone(), false),
            Some((q, y, agg)) => {
                let o = join_segments(&y, x);
                let got = aggregate(ly, &ly.segment(&q, &y, agg, false), &ly.segment(&p, x, false, false));
                judge(c, &got, &segments(&y, Some(x), &o), "segments of a batch")?;
                (got.unwrap(), o, true)
            }
        });
    }
    let (p, x, agg) = acc.unwrap();
    if agg {
        return Ok(p);
    }
    let got = aggregate(ly, &ly.segment(&p, &x, false, false), &ly.segment(&p, &x, false, true));
    judge(c, &got, &segments(&x, None, &x), "the segment of a batch")?;
    Ok(got.unwrap())
}
fn batch(ly: &Layer, l: (&Proof, &V, bool), r: (&Proof, &V, bool)) -> Result<Proof, String> {
    attempt(|| {
        let p = ly.all.prove_batch_aggregation(l.2, &ly.pvs(l.0, l.1), r.2, &ly.pvs(r.0, r.1))?.intern;
        ly.all.verify_batch_aggregation(&p)?;
        Ok(p)
    })
}
fn prove_block(ly: &Layer, p: Option<&Proof>, a: (&Proof, &V)) -> Result<Proof, String> {
    attempt(|| {
        let x = ly.all.prove_block(p, &ly.pvs(a.0, a.1))?.intern;
        ly.all.verify_block(&x)?;
        ly.all.final_verifier_data().verify(x.clone())?;
        Ok(x)
    })
}
/// Two blocks, from their segments to the wrapper and a pair.
fn end_to_end(c: &mut Case, ly: &Layer) -> R {
    let mut parent: Option<(Proof, V)> = None;
    let mut checkpoint = None;
    let nblocks = if c.index % 3 == 2 { 3 } else { 2 };
    for k in 0..nblocks {
        let bs = honest_batches(c, ly.m, parent.as_ref().map(|x| &x.1), 2 + (k + c.index) % 2);
        let mut acc: Option<(Proof, V, bool)> = None;
        for b in &bs {
            let ns = 1 + c.below(3);
            let p = prove_segments(c, ly, b, ns)?;
            acc = Some(match acc {
                None => (p, b.clone(), false),
                Some((q, y, agg)) => {
                    let o = joined(&y, b);
                    let got = batch(ly, (&q, &y, agg), (&p, b, false));
                    judge(c, &got, &batches(ly.m, &y, b, &o), "batches of a block")?;
                    (got.unwrap(), o, true)
                }
            });
        }
        let (p, a, _) = acc.unwrap();
        let mut o = a.clone();
        if let Some((_, pv)) = &parent {
            for x in ROOTS {
                o.copy(&format!("roots before: {x}"), pv, &format!("roots before: {x}"));
            }
        } else {
            checkpoint = Some(a.clone());
        }
        let got = prove_block(ly, parent.as_ref().map(|x| &x.0), (&p, &a));
        judge(c, &got, &block(parent.as_ref().map(|x| &x.1), &a, &o), "a block in a chain")?;
        let got = got.unwrap();
        ly.exposed(&got, &o, &FREE_BLOCK, "a block in a chain")?;
        parent = Some((got, o));
    }
    let (p, v) = parent.unwrap();
    let cp = checkpoint.unwrap();
    let got = attempt(|| {
        let (x, f) = ly.all.prove_block_wrapper(&ly.pvs(&p, &v))?;
        ly.all.verify_block_wrapper(&x)?;
        Ok((x, f))
    });
    let (w, fin) = got.map_err(|e| format!("wrapper of a chain refused: {e}"))?;
    c.eval();
    // What the chain proves: from the checkpoint to the last block.
    let mut want = cp.get("chain id").to_vec();
    want.extend(cp.get("roots before: state"));
    want.extend(v.get("roots after: state"));
    want.extend(hash(cp.hashes()));
    let mut h = v.hashes()[8..].to_vec();
    h.extend(v.get("current hash"));
    want.extend(hash(&h));
    let seen: Vec<u64> = w.public_inputs[..want.len()].iter().map(|x| x.to_canonical_u64()).collect();
    check_eq!(seen, want, "public inputs of a wrapped chain of {nblocks} blocks");
    check_eq!(fin, FinalPublicValues::from_public_inputs(&w.public_inputs), "final public values of a wrapped chain");
    let two = attempt(|| {
        let t = ly.all.prove_two_to_one_block(&w, false, &w, false)?;
        ly.all.verify_two_to_one_block(&t)?;
        Ok(t)
    })
    .map_err(|e| format!("pair of wrapped chains refused: {e}"))?;
    let hh = hash(&want);
    let both: Vec<u64> = hh.iter().chain(&hh).copied().collect();
    let seen: Vec<u64> = two.public_inputs[..4].iter().map(|x| x.to_canonical_u64()).collect();
    check_eq!(seen, hash(&both), "public inputs of a pair");
    c.count("chains from segments to pairs", 1);
    c.sample(|| format!("{nblocks} blocks: final public values {want:?}"));
    Ok(())
}
fn foreign_segments(c: &mut Case, ly: &Layer) -> R {
    // A proof of a foreign circuit as an aggregation on one side.
    let l = random(c);
    let r = continued(c, &l);
    let foreign = free_circuit(&ly.all.segment_aggregation.circuit.common);
    for claimed in [&ly.all.segment_aggregation.circuit, &foreign] {
        let mut mk = |v: &V| {
            let mut pis = v.0.clone();
            pis.extend(vk_pis(&claimed.verifier_only));
            free_proof(&foreign, &pis)
        };
        let (lp, rp) = if c.index == 0 { (mk(&l), ly.child(&r)) } else { (ly.child(&l), mk(&r)) };
        let got = aggregate(ly, &ly.segment(&lp, &l, c.index == 0, false), &ly.segment(&rp, &r, c.index == 1, false));
        judge(c, &got, &Some("a foreign circuit".into()), "segments: an aggregation from a foreign circuit")?;
    }
    Ok(())
}

fn batches_honest(c: &mut Case, ly: &Layer) -> R {
    let n = 2 + c.index % 3;
    let v = honest_batches(c, ly.m, None, n);
    let ps: Vec<Proof> = v.iter().map(|x| ly.child(x)).collect();
    let o = joined(&v[0], &v[1]);
    let got = batch(ly, (&ps[0], &v[0], false), (&ps[1], &v[1], false));
    judge(c, &got, &batches(ly.m, &v[0], &v[1], &o), "two batches")?;
    let got = got.unwrap();
    ly.exposed(&got, &o, &FREE_BATCH, "two batches")?;
    // Only a batch starts with the initial memory; an aggregation keeps that of
    // its first batch.
    if n == 3 {
        let o2 = joined(&o, &v[2]);
        let g = batch(ly, (&got, &o, true), (&ps[2], &v[2], false));
        judge(c, &g, &batches(ly.m, &o, &v[2], &o2), "a batch after an aggregation")?;
        ly.exposed(&g.unwrap(), &o2, &FREE_BATCH, "a batch after an aggregation")?;
        let g = batch(ly, (&got, &o, false), (&ps[2], &v[2], false));
        judge(c, &g, &Some("kind".into()), "an aggregation as a batch")?;
        let g = batch(ly, (&ps[0], &v[0], true), (&ps[1], &v[1], false));
        judge(c, &g, &Some("kind".into()), "a batch as an aggregation")?;
    }
    if n == 4 {
        let o2 = joined(&v[2], &v[3]);
        let g = batch(ly, (&ps[2], &v[2], false), (&ps[3], &v[3], false));
        judge(c, &g, &batches(ly.m, &v[2], &v[3], &o2), "two batches")?;
        let o3 = joined(&o, &o2);
        let g = batch(ly, (&got, &o, true), (&g.unwrap(), &o2, true));
        judge(c, &g, &batches(ly.m, &o, &o2, &o3), "two aggregations of batches")?;
        ly.exposed(&g.unwrap(), &o3, &FREE_BATCH, "two aggregations of batches")?;
    }
    Ok(())
}
fn batches_field(c: &mut Case, ly: &Layer, pair: &Pair, cases: usize) -> R {
    let at = place(c, cases);
    let spec = |l: &V, r: &V, o: &V| batches(ly.m, l, r, o);
    one_field(c, ly, pair, at, spec, |c, l, r, o, what| {
        // The result's values are those declared for the right, but for roots,
        // transactions and gas before.
        let spec = spec(l.0, r.0, o);
        let what = format!("batches: {what}");
        let got = batch(ly, (l.1, o, false), (r.1, o, false));
        judge(c, &got, &spec, &what)?;
        if let Ok(p) = got {
            ly.exposed(&p, o, &FREE_BATCH, &what)?;
        }
        Ok(())
    })
}
/// A prover that uses a circuit of its own as the cyclic one.
fn foreign_batches(c: &mut Case, ly: &Layer) -> R {
    let v = honest_batches(c, ly.m, None, 2);
    let (l, r) = (&v[0], &v[1]);
    let o = joined(l, r);
    match c.index {
        0 | 1 => {
            // A foreign circuit as an aggregation, under the true or its own data.
            let foreign = free_circuit(&ly.all.batch_aggregation.circuit.common);
            let claimed = if c.index == 0 { &ly.all.batch_aggregation.circuit } else { &foreign };
            let mut pis = l.0.clone();
            pis.extend(vk_pis(&claimed.verifier_only));
            let p = free_proof(&foreign, &pis);
            let got = batch(ly, (&p, &o, true), (&ly.child(r), &o, false));
            judge(c, &got, &Some("a foreign circuit".into()), "batches: an aggregation from a foreign circuit")
        }
        k => {
            // A segment aggregation that used a foreign circuit for its children
            // exposes the data of that circuit.
            let mut lie = vk_pis(&ly.free.verifier_only);
            let i = c.below(lie.len());
            lie[i] = (lie[i] + 1) % P;
            let mk = |v: &V, vk: &[u64]| free_proof(ly.free, &v.0.iter().chain(vk).copied().collect::<Vec<_>>());
            let truth = vk_pis(&ly.free.verifier_only);
            let (lp, rp) = if k == 2 { (mk(l, &lie), mk(r, &truth)) } else { (mk(l, &truth), mk(r, &lie)) };
            let got = batch(ly, (&lp, &o, false), (&rp, &o, false));
            judge(c, &got, &Some("foreign verifier data".into()), "batches: segments aggregated with foreign verifier data")
        }
    }
}

/// A block and its parent's public values.
fn block_case(c: &mut Case, ly: &Layer, parent: bool) -> (Option<V>, V) {
    if !parent {
        let v = honest_batches(c, ly.m, None, 1);
        return (None, v[0].clone());
    }
    let p = honest_batches(c, ly.m, None, 1)[0].clone();
    let a = honest_batches(c, ly.m, Some(&p), 1)[0].clone();
    (Some(p), a)
}
fn out_of(p: Option<&V>, a: &V) -> V {
    let mut o = a.clone();
    if let Some(p) = p {
        for x in ROOTS {
            o.copy(&format!("roots before: {x}"), p, &format!("roots before: {x}"));
        }
    }
    o
}
fn blocks_honest(c: &mut Case, ly: &Layer) -> R {
    let (_, a) = block_case(c, ly, false);
    let got = prove_block(ly, None, (&ly.child(&a), &a));
    judge(c, &got, &block(None, &a, &a), "the first block")?;
    let mut p = got.unwrap();
    let mut v = a;
    ly.exposed(&p, &v, &FREE_BLOCK, "the first block")?;
    for _ in 0..1 + c.index % 3 {
        let b = honest_batches(c, ly.m, Some(&v), 1)[0].clone();
        let o = out_of(Some(&v), &b);
        let got = prove_block(ly, Some(&p), (&ly.child(&b), &b));
        judge(c, &got, &block(Some(&v), &b, &o), "the next block")?;
        p = got.unwrap();
        ly.exposed(&p, &o, &FREE_BLOCK, "the next block")?;
        v = o;
    }
    Ok(())
}
/// A first block, and the batches of the next one.
struct Chain {
    first: (V, Proof),
    block: Proof,
    next: (V, Proof),
}
fn blocks_field(c: &mut Case, ly: &Layer, ch: &Chain, cases: usize) -> R {
    let ns = names();
    let mut go = |c: &mut Case, next: bool, a: &V, p: &Proof, declared: &V, what: &str| {
        let parent = next.then_some(&ch.first.0);
        let o = out_of(parent, declared);
        let spec = block(parent, a, &o);
        let got = prove_block(ly, next.then_some(&ch.block), (p, declared));
        let what = format!("{}: {what}", if next { "next block" } else { "first block" });
        judge(c, &got, &spec, &what)?;
        if let Ok(p) = got {
            ly.exposed(&p, &o, &FREE_BLOCK, &what)?;
        }
        Ok(())
    };
    match place(c, cases) {
        Some((i, side)) => {
            let next = side == 1;
            let mut a = if next { ch.next.0.clone() } else { ch.first.0.clone() };
            let mut declared = a.clone();
            let w = perturb(c, &mut a, ns[i], false);
            // What does not fit the public values cannot be declared.
            if a.public_values_fit() {
                declared = a.clone();
            }
            let parent = next.then_some(&ch.first.0);
            if block(parent, &a, &out_of(parent, &declared)).is_none() && c.chance(0.9) {
                return Ok(());
            }
            let p = ly.child(&a);
            go(c, next, &a, &p, &declared, &format!("batches {w}"))
        }
        None => {
            for next in [false, true] {
                // A first block takes a dummy of its parent, which is slow.
                let part = if next { 1.0 } else { 0.3 };
                let (a, p) = if next { &ch.next } else { &ch.first };
                for n in &ns {
                    // The roots before the first block are those of the
                    // checkpoint only after the wrapper; see there. Those before
                    // the next block are not declared.
                    if FREE_BLOCK.contains(n) || n.starts_with("roots before") || !c.chance(part) {
                        continue;
                    }
                    let mut declared = a.clone();
                    let w = perturb(c, &mut declared, n, true);
                    go(c, next, a, p, &declared, &format!("result {w}"))?;
                }
            }
            Ok(())
        }
    }
}
fn foreign_blocks(c: &mut Case, ly: &Layer) -> R {
    let (p, a) = block_case(c, ly, true);
    let p = p.unwrap();
    match c.index {
        0 | 1 => {
            let foreign = free_circuit(&ly.all.block.circuit.common);
            let claimed = if c.index == 0 { &ly.all.block.circuit } else { &foreign };
            let mut pis = p.0.clone();
            pis.extend(vk_pis(&claimed.verifier_only));
            let pp = free_proof(&foreign, &pis);
            let got = prove_block(ly, Some(&pp), (&ly.child(&a), &a));
            judge(c, &got, &Some("a foreign circuit".into()), "blocks: a parent from a foreign circuit")
        }
        _ => {
            let (_, a) = block_case(c, ly, false);
            let mut lie = vk_pis(&ly.free.verifier_only);
            let i = c.below(lie.len());
            lie[i] = (lie[i] + 1) % P;
            let ap = free_proof(ly.free, &a.0.iter().chain(&lie).copied().collect::<Vec<_>>());
            let got = prove_block(ly, None, (&ap, &a));
            judge(c, &got, &Some("foreign verifier data".into()), "blocks: batches aggregated with foreign verifier data")
        }
    }
}
fn wrap(ly: &Layer, p: &Proof, v: &V) -> Result<Proof, String> {
    attempt(|| {
        let (x, _) = ly.all.prove_block_wrapper(&ly.pvs(p, v))?;
        ly.all.verify_block_wrapper(&x)?;
        Ok(x)
    })
}
fn wrappers(c: &mut Case, ly: &Layer) -> R {
    let ns = names();
    let n = ns[c.index % ns.len()];
    let mut v = random(c);
    let x = v.clone();
    v.copy("checkpoint root", &x, "roots before: state");
    let mut declared = v.clone();
    let mut what = "honest".to_string();
    let free = !n.contains("hash") && !["roots before: state", "roots after: state", "checkpoint root", "chain id"].contains(&n);
    if free && c.chance(0.85) {
        return Ok(());
    }
    match c.index / ns.len() % 2 {
        0 => what = format!("block {}", perturb(c, &mut v, n, false)),
        _ => what = format!("wrapper {}, {what}", perturb(c, &mut declared, n, true)),
    }
    let want = wrapper(&v);
    let declares = {
        // The values are made from the declared ones without looking at the
        // checkpoint root.
        let mut d = declared.clone();
        let x = declared.clone();
        d.copy("checkpoint root", &x, "roots before: state");
        wrapper(&d).unwrap()
    };
    let got = wrap(ly, &ly.child(&v), &declared);
    let what = format!("wrapper: {what}");
    let spec = match &want {
        None => Some("roots before / checkpoint root".into()),
        Some(w) => match &got {
            // What is declared need not be looked at, as long as the proof says
            // what it should.
            Ok(p) => {
                let seen: Vec<u64> = p.public_inputs[..w.len()].iter().map(|x| x.to_canonical_u64()).collect();
                check_eq!(&seen, w, "{what}: public inputs");
                None
            }
            Err(_) => (*w != declares).then(|| "final public values".to_string()),
        },
    };
    judge(c, &got, &spec, &what)
}
fn foreign_wrapper(c: &mut Case, ly: &Layer) -> R {
    let mut v = random(c);
    let x = v.clone();
    v.copy("checkpoint root", &x, "roots before: state");
    let mut lie = vk_pis(&ly.free.verifier_only);
    let i = c.below(lie.len());
    lie[i] = (lie[i] + 1) % P;
    let p = free_proof(ly.free, &v.0.iter().chain(&lie).copied().collect::<Vec<_>>());
    let got = wrap(ly, &p, &v);
    judge(c, &got, &Some("foreign verifier data".into()), "wrapper: blocks chained with foreign verifier data")
}
/// Pairs of pairs: the hash tree over the final public values.
fn pairs(c: &mut Case, ly: &Layer) -> R {
    let total = ly.free.common.num_public_inputs;
    let nfinal: usize = FINAL_FIELDS.iter().map(|x| x.1).sum();
    let mut leaf = |c: &mut Case| {
        let v: Vec<u64> = (0..total).map(|_| c.rng.gen::<u64>() % P).collect();
        let p = free_proof(ly.free, &v);
        (p, hash(&v[..nfinal]), false)
    };
    let make = |l: &(Proof, Vec<u64>, bool), r: &(Proof, Vec<u64>, bool), la: bool, ra: bool| {
        attempt(|| {
            let p = ly.all.prove_two_to_one_block(&l.0, la, &r.0, ra)?;
            ly.all.verify_two_to_one_block(&p)?;
            Ok(p)
        })
    };
    let mut nodes: Vec<(Proof, Vec<u64>, bool)> = (0..3).map(|_| leaf(c)).collect();
    while nodes.len() > 1 {
        let i = c.below(nodes.len());
        let l = nodes.remove(i);
        let j = c.below(nodes.len());
        let r = nodes.remove(j);
        let got = make(&l, &r, l.2, r.2);
        judge(c, &got, &None, "a pair")?;
        let h = hash(&l.1.iter().chain(&r.1).copied().collect::<Vec<_>>());
        let p = got.unwrap();
        let seen: Vec<u64> = p.public_inputs[..4].iter().map(|x| x.to_canonical_u64()).collect();
        check_eq!(seen, h, "public inputs of a pair");
        // Its public inputs cannot be others.
        let mut q = p.clone();
        let k = c.below(q.public_inputs.len());
        q.public_inputs[k] += f(1);
        let bad = attempt(|| ly.all.verify_two_to_one_block(&q)).map(|_| q.clone());
        judge(c, &bad, &Some("public inputs".into()), "a pair with other public inputs")?;
        // The kinds cannot be exchanged.
        if c.chance(0.5) {
            let g = make(&l, &r, !l.2, r.2);
            judge(c, &g, &Some("kind".into()), "a pair with a child of the other kind")?;
        } else {
            let g = make(&l, &r, l.2, !r.2);
            judge(c, &g, &Some("kind".into()), "a pair with a child of the other kind")?;
        }
        nodes.push((p, h, true));
    }
    // A foreign circuit as a pair.
    let foreign = free_circuit(&ly.all.two_to_one_block.circuit.common);
    let v: Vec<u64> = (0..total).map(|_| c.rng.gen::<u64>() % P).collect();
    for claimed in [&ly.all.two_to_one_block.circuit, &foreign] {
        let vk = vk_pis(&claimed.verifier_only);
        let mut pis = v.clone();
        pis[total - vk.len()..].copy_from_slice(&vk);
        let p = (free_proof(&foreign, &pis), vec![], true);
        let other = leaf(c);
        let g = make(&p, &other, true, false);
        judge(c, &g, &Some("a foreign circuit".into()), "a pair from a foreign circuit")?;
    }
    Ok(())
}
