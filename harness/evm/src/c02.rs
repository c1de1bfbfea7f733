//! The constraint system refuses changes to a witness.
//!
//! Rows of honest traces are grouped in classes (table, place, and the columns
//! that select what the row does). For each class, the monitor observes how
//! many independent directions of change are refused by the constraints and
//! by what other tables see of the row (ranks of derivatives), and which
//! changes of a single cell are refused. What is refused on the reference tree
//! has to be refused.
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex, OnceLock};

use serde_json::{json, Value};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use vh_core::*;

use crate::c01::*;
use crate::stark::*;

/// The columns that select what a row does.
pub fn selectors(t: usize) -> Vec<usize> {
    match t {
        0 => (0..17).collect(),
        1 => (0..33).collect(),
        2 => [4].into_iter().chain(6..32).collect(),
        3 => (0..24).collect(),
        4 => [0].into_iter().chain(6..142).collect(),
        5 => (0..3).collect(),
        6 => vec![0, 3, 15, 16, 17, 22, 24, 25, 26],
        _ => vec![0],
    }
}
/// Selectors that are numbers: only zero or not matters.
fn class(s: &Segment, t: usize, i: usize) -> Option<String> {
    let rows = &s.rows[t];
    let r = &rows[i];
    let n = rows.len();
    let mut k = format!("{}|{}{}|", TABLE_NAMES[t], (i == 0) as u8, (i + 1 == n) as u8);
    let sel = selectors(t);
    let on: Vec<usize> = sel.iter().copied().filter(|&c| small(r[c]) != 0).collect();
    if t == 4 {
        // final rows: a few lengths only
        let len = on.iter().find(|&&c| c >= 6).map_or(0, |c| c - 5);
        if len > 3 && len < 134 && len % 37 != 0 {
            return None;
        }
    }
    for c in on {
        k += &format!("{c},");
        let v = small(r[c]);
        if v != 1 {
            k += "*";
        }
    }
    if t == 0 && k.ends_with('|') {
        // the second row of an operation
        let p = &rows[(i + n - 1) % n];
        for &c in sel.iter().filter(|&&c| small(p[c]) != 0) {
            k += &format!("after {c},");
        }
    }
    Some(k)
}
/// A pair of rows to look at.
struct Spot {
    seg: usize,
    row: usize,
}
pub struct Work {
    pub segs: Vec<Segment>,
    spots: BTreeMap<String, (usize, Vec<Spot>)>,
}
fn per_class(t: usize) -> usize {
    match t {
        3 => 2,
        4 => 3,
        _ => 6,
    }
}

/// Which blocks, and with what segment length.
const PLAN: [(usize, usize, usize); 18] =
    [(0, 16, 0), (4, 15, 1), (8, 15, 1), (12, 15, 3), (16, 16, 0), (20, 16, 0), (24, 16, 0), (44, 15, 2), (48, 15, 2), (1, 15, 2), (5, 15, 2), (2, 15, 2), (3, 14, 4), (7, 15, 1), (56, 16, 0), (56, 16, 1), (25, 16, 1), (29, 16, 2)];

pub fn workload(seed: u64, plan: &[(usize, usize, usize)]) -> Work {
    let out: Mutex<Vec<(usize, Segment)>> = Mutex::new(vec![]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..7 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(&(index, log, want)) = plan.get(k) else { return };
                let mut c = Case::detached(seed, index);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let (bs, _) = any_batch(&mut c);
                    let b = &bs[c.below(bs.len())];
                    let (_, v) = segments(&b.inputs(), Some(log), |i| i == want).ok()?;
                    let (_, t, s) = v.into_iter().next()?;
                    trace(&t, &s).ok()
                }));
                if let Ok(Some(s)) = r {
                    out.lock().unwrap().push((k, s));
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let mut segs: Vec<Segment> = v.into_iter().map(|x| x.1).collect();
    let mut spots: BTreeMap<String, (usize, Vec<Spot>)> = BTreeMap::new();
    let mut seen: HashSet<(String, String)> = HashSet::new();
    for (si, s) in segs.iter().enumerate() {
        for t in 0..TABLES {
            if !s.in_use[t] {
                continue;
            }
            let n = s.rows[t].len();
            for i in 0..n {
                let Some(k) = class(s, t, i) else { continue };
                let e = spots.entry(k.clone()).or_insert((t, vec![]));
                if e.1.len() >= per_class(t) {
                    continue;
                }
                let after = class(s, t, (i + 1) % n).unwrap_or_default();
                if e.1.is_empty() || seen.insert((k, after)) {
                    e.1.push(Spot { seg: si, row: i });
                }
            }
        }
    }
    for s in &mut segs {
        s.tables.tables = std::array::from_fn(|_| vec![]);
    }
    Work { segs, spots }
}

fn at(n: usize, i: usize) -> At {
    At { first: i == 0, last: i + 1 == n }
}

/// Sides of cross-table lookups by table: (lookup, side).
fn sides() -> &'static Vec<Vec<(usize, &'static Side)>> {
    static S: OnceLock<Vec<Vec<(usize, &'static Side)>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![vec![]; TABLES];
        for (k, ctl) in all_ctls().iter().enumerate() {
            for s in ctl.looking.iter().chain([&ctl.looked]) {
                v[s.table].push((k, s));
            }
        }
        v
    })
}

/// What a row is bound by: independent directions refused.
pub const RANKS: [&str; 6] = ["constraints", "constraints on the row", "constraints on the next row", "lookups", "cross-table lookups", "all on the row"];
fn ranks(s: &Segment, t: usize, i: usize) -> [usize; 6] {
    let rows = &s.rows[t];
    let n = rows.len();
    let (l, m) = (&rows[i], &rows[(i + 1) % n]);
    let w = l.len();
    let jac = jacobian(all(), t, l, m, at(n, i));
    let cut = |v: &Vec<Vec<(usize, F)>>, lo: usize, hi: usize| -> Vec<Vec<(usize, F)>> { v.iter().map(|r| r.iter().copied().filter(|x| x.0 >= lo && x.0 < hi).collect()).collect() };
    let mut look = vec![];
    let next_also = |f: &Form| f.row(w);
    for k in all_lookups()[t].iter() {
        for (c, f) in k.columns.iter().zip(&k.filters) {
            if f.eval(l, m) != F(0) {
                look.push(next_also(c));
            }
        }
    }
    let mut ctl = vec![];
    for (_, side) in &sides()[t] {
        if side.filter.eval(l, m) != F(0) {
            ctl.extend(side.columns.iter().map(next_also));
        }
    }
    let mut everything = cut(&jac, 0, w);
    everything.extend(cut(&look, 0, w));
    everything.extend(cut(&ctl, 0, w));
    [rank(&jac), rank(&cut(&jac, 0, w)), rank(&cut(&jac, w, 2 * w)), rank(&look), rank(&ctl), rank(&everything)]
}

/// Ways to change a cell.
pub const WAYS: [&str; 9] = ["one more", "one less", "zero", "one", "two", "one minus it", "the value before it", "random", "65536 more"];
fn change(way: usize, row: &[F], c: usize, r: F) -> F {
    let x = row[c];
    match way {
        0 => x + F(1),
        1 => x - F(1),
        2 => F(0),
        3 => F(1),
        4 => F(2),
        5 => F(1) - x,
        6 => row[c.saturating_sub(1)],
        7 => r,
        _ => x + F(65536),
    }
}
fn ways(t: usize) -> &'static [usize] {
    if t == 3 {
        &[5, 7]
    } else {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8]
    }
}
pub fn all_lookups() -> &'static Vec<Vec<Look>> {
    static L: OnceLock<Vec<Vec<Look>>> = OnceLock::new();
    L.get_or_init(|| (0..TABLES).map(|t| lookups(all(), t)).collect())
}
/// The values that can be looked up in a table of a segment.
fn ranges(s: &Segment, t: usize) -> Vec<HashSet<u64>> {
    let rows = &s.rows[t];
    let n = rows.len();
    all_lookups()[t].iter().map(|k| (0..n).map(|i| small(k.table.eval(&rows[i], &rows[(i + 1) % n]))).collect()).collect()
}
/// 2: refused by constraints or lookups; 1: seen by another table; 0: neither.
fn refused(s: &Segment, rg: &[HashSet<u64>], t: usize, i: usize, row: &[F]) -> u8 {
    let rows = &s.rows[t];
    let n = rows.len();
    let p = (i + n - 1) % n;
    let q = (i + 1) % n;
    if !satisfied(all(), t, row, &rows[q], at(n, i)) || !satisfied(all(), t, &rows[p], row, at(n, p)) {
        return 2;
    }
    for (l, m, old_l, old_m) in [(row, &rows[q][..], &rows[i][..], &rows[q][..]), (&rows[p][..], row, &rows[p][..], &rows[i][..])] {
        for (k, rg) in all_lookups()[t].iter().zip(rg) {
            for (c, f) in k.columns.iter().zip(&k.filters) {
                if f.eval(l, m) != F(0) && !rg.contains(&small(c.eval(l, m))) {
                    return 2;
                }
            }
            if k.table.eval(l, m) != k.table.eval(old_l, old_m) && !rg.contains(&small(k.table.eval(l, m))) {
                return 2;
            }
        }
    }
    for (l, m, old_l, old_m) in [(row, &rows[q][..], &rows[i][..], &rows[q][..]), (&rows[p][..], row, &rows[p][..], &rows[i][..])] {
        for (_, side) in &sides()[t] {
            let (a, b) = (side.filter.eval(l, m), side.filter.eval(old_l, old_m));
            if a != b || a != F(0) && side.columns.iter().any(|f| f.eval(l, m) != f.eval(old_l, old_m)) {
                return 1;
            }
        }
    }
    0
}
/// For every way: for every cell, how changes are refused at worst ('-': the
/// way changes nothing).
fn bits(s: &Segment, rg: &[HashSet<u64>], t: usize, i: usize) -> Vec<String> {
    let row = &s.rows[t][i];
    let mut rng = Case::detached(77, t * 1000);
    let mut v = row.clone();
    ways(t)
        .iter()
        .map(|&way| {
            (0..row.len())
                .map(|c| {
                    use rand::Rng;
                    let r = F(rng.rng.gen::<u64>() >> 2);
                    let x = change(way, row, c, r);
                    if x == row[c] || way == 5 && small(row[c]) > 1 {
                        return '-';
                    }
                    v[c] = x;
                    let b = refused(s, rg, t, i, &v);
                    v[c] = row[c];
                    (b'0' + b) as char
                })
                .collect()
        })
        .collect()
}
/// Ways to change two cells at once: the changes, by first cell.
pub const PAIRS: [&str; 7] = ["selectors both one", "selectors both a half", "selectors one and minus one", "neighbours swapped", "carried by 256", "carried by 65536", "carried by 2^32"];
fn pairs(t: usize, row: &[F]) -> Vec<Vec<Vec<[(usize, F); 2]>>> {
    let n = row.len();
    let sel = selectors(t);
    let half = (F(1) + F(1)).inverse();
    let mut v = vec![];
    for (x, y) in [(F(1), F(1)), (half, half), (F(1), -F(1))] {
        v.push(
            sel.iter()
                .enumerate()
                .map(|(i, &a)| {
                    let far = if sel.len() > 40 { 2 } else { sel.len() };
                    sel[i + 1..].iter().take(far).map(|&b| [(a, x), (b, y)]).collect()
                })
                .collect(),
        );
    }
    v.push((0..n - 1).map(|a| vec![[(a, row[a + 1]), (a + 1, row[a])]]).collect());
    for k in [1u64 << 8, 1 << 16, 1 << 32] {
        v.push((0..n - 1).map(|a| vec![[(a, row[a] + F(k)), (a + 1, row[a + 1] - F(1))], [(a, row[a] - F(k)), (a + 1, row[a + 1] + F(1))]]).collect());
    }
    v
}
/// A change that changes nothing.
const NONE: u64 = 999;
/// For every way: for every first cell, how many changes are refused by
/// constraints or lookups.
fn pair_counts(s: &Segment, rg: &[HashSet<u64>], t: usize, i: usize) -> Vec<Vec<u64>> {
    if t == 3 {
        return vec![];
    }
    let row = &s.rows[t][i];
    let mut v = row.clone();
    pairs(t, row)
        .into_iter()
        .map(|way| {
            way.into_iter()
                .map(|cells| {
                    let mut n = 0;
                    let mut same = false;
                    for ch in cells {
                        for (c, x) in ch {
                            v[c] = x;
                        }
                        same |= v == *row;
                        n += (refused(s, rg, t, i, &v) == 2) as u64;
                        for (c, _) in ch {
                            v[c] = row[c];
                        }
                    }
                    if same {
                        NONE
                    } else {
                        n
                    }
                })
                .collect()
        })
        .collect()
}
fn pack_counts(v: &[u64]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        o += &format!("{}{}x{}", if o.is_empty() { "" } else { " " }, v[i], j - i);
        i = j;
    }
    o
}
fn unpack_counts(s: &str) -> Vec<u64> {
    let mut o = vec![];
    for p in s.split(' ').filter(|p| !p.is_empty()) {
        let (a, b) = p.split_once('x').unwrap();
        o.extend(std::iter::repeat(a.parse::<u64>().unwrap()).take(b.parse().unwrap()));
    }
    o
}
fn pack(s: &str) -> String {
    let mut o = String::new();
    let v: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        o.push(match v[i] { '-' => 'n', '0' => 'a', '1' => 'b', _ => 'c' });
        if j - i > 1 {
            o += &(j - i).to_string();
        }
        i = j;
    }
    o
}
fn unpack(s: &str) -> String {
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let ch = match b[i] { 'n' => '-', 'a' => '0', 'b' => '1', _ => '2' };
        i += 1;
        let j = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        let n: usize = if i > j { b[j..i].iter().collect::<String>().parse().unwrap() } else { 1 };
        (0..n).for_each(|_| o.push(ch));
    }
    o
}

/// What is observed of a row.
struct Seen {
    ranks: [usize; 6],
    bits: Vec<String>,
    pairs: Vec<Vec<u64>>,
}
fn observe(w: &Work, k: &str, ranges_of: &dyn Fn(usize, usize) -> Arc<Vec<HashSet<u64>>>) -> (Vec<Seen>, u64) {
    let (t, spots) = &w.spots[k];
    let mut out = vec![];
    let mut n = 0;
    for sp in spots {
        let s = &w.segs[sp.seg];
        let rg = ranges_of(sp.seg, *t);
        let seen = Seen { ranks: ranks(s, *t, sp.row), bits: bits(s, &rg, *t, sp.row), pairs: pair_counts(s, &rg, *t, sp.row) };
        n += 1 + seen.bits.iter().map(|x| x.len() as u64).sum::<u64>() + seen.pairs.iter().map(|x| x.len() as u64).sum::<u64>();
        out.push(seen);
    }
    (out, n)
}
/// What was observed of a class.
#[derive(Default)]
struct Known {
    /// Rows looked at.
    rows: u64,
    /// Highest by workload.
    ranks: Vec<[usize; 6]>,
    least: Option<[usize; 6]>,
    /// How often, and the least.
    bits: Vec<Vec<(u64, u8)>>,
    pairs: Vec<Vec<(u64, u64)>>,
}
/// What fewer rows than this showed is not relied on.
const ENOUGH: u64 = 8;
impl Known {
    fn add(&mut self, v: &[Seen]) {
        self.rows += v.len() as u64;
        self.ranks.push(std::array::from_fn(|j| v.iter().map(|s| s.ranks[j]).max().unwrap_or(0)));
        for s in v {
            self.least = Some(self.least.map_or(s.ranks, |l| std::array::from_fn(|j| l[j].min(s.ranks[j]))));
            if self.bits.is_empty() {
                self.bits = s.bits.iter().map(|b| vec![(0, 2); b.len()]).collect();
                self.pairs = s.pairs.iter().map(|b| vec![(0, NONE); b.len()]).collect();
            }
            for (a, b) in self.bits.iter_mut().zip(&s.bits) {
                for (x, y) in a.iter_mut().zip(b.bytes()) {
                    if y != b'-' {
                        *x = (x.0 + 1, x.1.min(y - b'0'));
                    }
                }
            }
            for (a, b) in self.pairs.iter_mut().zip(&s.pairs) {
                for (x, &y) in a.iter_mut().zip(b) {
                    if y != NONE {
                        *x = (x.0 + 1, x.1.min(y));
                    }
                }
            }
        }
    }
    fn json(&self) -> Value {
        let same = |j: usize| self.ranks.len() >= 16 && self.ranks.iter().all(|r| r[j] == self.ranks[0][j]);
        let ranks: Vec<usize> = (0..6).map(|j| if same(j) { self.ranks[0][j] } else { self.least.unwrap()[j] }).collect();
        let bits: Vec<String> = self.bits.iter().map(|b| pack(&b.iter().map(|&(n, x)| if n < ENOUGH { '-' } else { (b'0' + x) as char }).collect::<String>())).collect();
        let pairs: Vec<String> = self.pairs.iter().map(|b| pack_counts(&b.iter().map(|&(n, x)| if n < ENOUGH { NONE } else { x }).collect::<Vec<_>>())).collect();
        json!([ranks, bits, pairs])
    }
}
fn path() -> std::path::PathBuf {
    verif_dir().join("harness/evm/baseline/constraints.json")
}
fn range_cache(w: &Work) -> impl Fn(usize, usize) -> Arc<Vec<HashSet<u64>>> + Sync + '_ {
    let cells: Vec<Vec<OnceLock<Arc<Vec<HashSet<u64>>>>>> = w.segs.iter().map(|_| (0..TABLES).map(|_| OnceLock::new()).collect()).collect();
    move |s, t| cells[s][t].get_or_init(|| Arc::new(ranges(&w.segs[s], t))).clone()
}

/// Makes the baseline, out of several workloads.
pub fn make_baseline() {
    let mut out: BTreeMap<String, Known> = BTreeMap::new();
    let seeds: u64 = std::env::var("VH_BASELINE").unwrap().parse().unwrap();
    for seed in 1..=seeds {
        let w = &workload(seed, &PLAN);
        let rc = range_cache(w);
        let keys: Vec<&String> = w.spots.keys().collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let o = Mutex::new(&mut out);
        let rc = &rc;
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(&k) = keys.get(k) else { return };
                    let (seen, _) = observe(w, k, &|s, t| rc(s, t));
                    o.lock().unwrap().entry(k.clone()).or_default().add(&seen);
                });
            }
        });
        eprintln!("seed {seed}: {} segments, {} classes so far", w.segs.len(), out.len());
    }
    out.retain(|_, k| k.rows >= ENOUGH);
    eprintln!("{} classes kept", out.len());
    let mut text = String::from("{\n");
    for (i, (k, x)) in out.iter().enumerate() {
        text += &format!("{}:{}{}\n", json!(k), x.json(), if i + 1 < out.len() { "," } else { "" });
    }
    text += "}\n";
    std::fs::create_dir_all(path().parent().unwrap()).unwrap();
    std::fs::write(path(), text).unwrap();
}

pub fn run(k: &mut Check) {
    if std::env::var("VH_COVER").is_ok() {
        coverage();
        return;
    }
    if std::env::var("VH_BASELINE").is_ok() {
        make_baseline();
        return;
    }
    k.rule("one evaluation = the rank of the constraints, lookups and cross-table lookups at one row, or one change of one cell of a row, compared with what is refused on the reference tree");
    let base: BTreeMap<String, Value> = serde_json::from_str(&std::fs::read_to_string(path()).expect("baseline")).expect("baseline");
    let (seed, plan) = if k.thorough { (1 + k.seed % 4, PLAN.to_vec()) } else { (1, PLAN.to_vec()) };
    let seed = std::env::var("VH_WORK").map_or(seed, |s| s.parse().unwrap());
    let w: &'static Work = Box::leak(Box::new(workload(seed, &plan)));
    let rc: &'static _ = Box::leak(Box::new(range_cache(w)));
    let keys: Vec<&String> = w.spots.keys().filter(|x| base.contains_key(*x)).collect();
    let found: HashSet<usize> = w.spots.values().map(|x| x.0).collect();
    k.extra("classes of rows observed", json!(keys.len()));
    k.extra("classes in the baseline", json!(base.len()));
    k.extra("tables observed", json!(found.len()));
    for t in TABLE_NAMES {
        k.require(&format!("classes of {t}"), 1);
    }
    k.hang_limit(600);
    let n = keys.len();
    k.stage("rows", n, |c| {
        // the long ones first
        let key = keys[c.index];
        let t = w.spots[key].0;
        c.count(&format!("classes of {}", TABLE_NAMES[t]), 1);
        let (seen, evals) = observe(w, key, &|s, t| rc(s, t));
        c.evals(evals);
        c.count("rows looked at", seen.len() as u64);
        c.distinct(key);
        c.sample(|| format!("{key}: ranks {:?}", seen[0].ranks));
        let b = &base[key];
        for (j, what) in RANKS.iter().enumerate() {
            let want = b[0][j].as_u64().unwrap() as usize;
            let have = seen.iter().map(|s| s.ranks[j]).max().unwrap();
            check!(have >= want, "rows of class {key}: {what} refuse {have} independent changes, {want} expected");
        }
        // Values may happen to make a change less or more visible: most of the
        // rows have to agree.
        let agree = |bad: usize, all: usize| bad >= 2 && 2 * bad >= all;
        for (wi, way) in ways(t).iter().enumerate() {
            for (col, y) in unpack(b[1][wi].as_str().unwrap()).bytes().enumerate().filter(|x| x.1 != b'-') {
                let xs: Vec<u8> = seen.iter().map(|s| s.bits[wi].as_bytes()[col]).filter(|&x| x != b'-').collect();
                let bad: Vec<u8> = xs.iter().copied().filter(|&x| x < y).collect();
                check!(!agree(bad.len(), xs.len()), "rows of class {key}: making cell {col} {} is {}", WAYS[*way], if bad[0] == b'0' { "refused by nothing" } else { "only seen by other tables, and refused by no constraint" });
            }
        }
        if t == 3 {
            return Ok(());
        }
        for (wi, name) in PAIRS.iter().enumerate() {
            for (col, &y) in unpack_counts(b[2][wi].as_str().unwrap()).iter().enumerate().filter(|x| *x.1 != NONE) {
                let xs: Vec<u64> = seen.iter().map(|s| s.pairs[wi][col]).filter(|&x| x != NONE).collect();
                let bad: Vec<u64> = xs.iter().copied().filter(|&x| x < y).collect();
                check!(!agree(bad.len(), xs.len()), "rows of class {key}: of the changes to two cells ({name}, cell or selector {col} first), constraints refuse {}, {y} expected", bad[0]);
            }
        }
        Ok(())
    });
}

/// Which constraints could be dropped without any rank going down?
pub fn coverage() {
    for t in (0..TABLES).filter(|t| std::env::var("VH_COVER").is_err() || *t != 3) {
        let mut covered: HashSet<usize> = HashSet::new();
        let mut total = 0;
        for seed in 1..=2 {
            let w = workload(seed, &PLAN);
            let spots: Vec<&Spot> = w.spots.values().filter(|x| x.0 == t).flat_map(|x| x.1.iter().take(2)).collect();
            let out = Mutex::new((&mut covered, &mut total));
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|sc| {
                for _ in 0..7 {
                    sc.spawn(|| loop {
                        let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let Some(sp) = spots.get(k) else { return };
                        let s = &w.segs[sp.seg];
                        let rows = &s.rows[t];
                        let n = rows.len();
                        let j = jacobian(all(), t, &rows[sp.row], &rows[(sp.row + 1) % n], at(n, sp.row));
                        let full = rank(&j);
                        for k in 0..j.len() {
                            if j[k].is_empty() || out.lock().unwrap().0.contains(&k) {
                                continue;
                            }
                            let less: Vec<&Vec<_>> = j.iter().enumerate().filter(|x| x.0 != k).map(|x| x.1).collect();
                            if rank(less) < full {
                                out.lock().unwrap().0.insert(k);
                            }
                        }
                        *out.lock().unwrap().1 = j.len();
                        // changes that a single constraint refuses
                        let row = &rows[sp.row];
                        let mut changes: Vec<Vec<(usize, F)>> = vec![];
                        for &way in ways(t) {
                            for c in 0..row.len() {
                                changes.push(vec![(c, change(way, row, c, F(0x1234_5678_9abc)))]);
                            }
                        }
                        if t != 3 {
                            changes.extend(pairs(t, row).into_iter().flatten().flatten().map(|x| x.to_vec()));
                        }
                        let d = |r: &[F]| -> Vec<Dual> { r.iter().map(|&x| Dual::new(x)).collect() };
                        let (p, q) = ((sp.row + n - 1) % n, (sp.row + 1) % n);
                        let (dp, dq) = (d(&rows[p]), d(&rows[q]));
                        for ch in changes {
                            let mut v = row.clone();
                            for (c, x) in ch {
                                v[c] = x;
                            }
                            let v = d(&v);
                            let mut bad: HashSet<usize> = HashSet::new();
                            for (k, x) in constraints(all(), t, &v, &dq, at(n, sp.row)).iter().enumerate().chain(constraints(all(), t, &dp, &v, at(n, p)).iter().enumerate()) {
                                if x.v != F(0) {
                                    bad.insert(k);
                                }
                            }
                            if bad.len() == 1 {
                                out.lock().unwrap().0.extend(bad);
                            }
                        }
                    });
                }
            });
        }
        let miss: Vec<usize> = (0..total).filter(|k| !covered.contains(k)).collect();
        eprintln!("{}: {total} constraints, {} not covered: {miss:?}", TABLE_NAMES[t], miss.len());
    }
}
