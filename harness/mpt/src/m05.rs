//! Diffs, path queries and statistics describe the tries they are given.

use mpt_trie::debug_tools::diff::create_full_diff_between_tries;
use mpt_trie::debug_tools::query::{get_path_from_query, DebugQueryParamsBuilder};
use mpt_trie::debug_tools::stats::get_trie_stats;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use mpt_trie::special_query::path_for_query;
use mpt_trie::trie_subsets::create_trie_subset;
use mpt_trie::utils::{IntoTrieKey, TrieSegment};
use vh_core::*;

use crate::model::*;

type T = HashedPartialTrie;

fn node_at<'a>(n: &'a T, path: &[u8]) -> Option<&'a T> {
    if path.is_empty() {
        return Some(n);
    }
    match &**n {
        Node::Branch { children, .. } => node_at(&children[path[0] as usize], &path[1..]),
        Node::Extension { nibbles, child } => {
            let e = unnib(nibbles);
            path.starts_with(&e).then(|| node_at(child, &path[e.len()..])).flatten()
        }
        _ => None,
    }
}

fn diffs(c: &mut Case) -> R {
    let fam = Family::pick(c);
    let mut g = Gen::new(c, fam);
    let n = c.below(30);
    let m = gen_map(c, &mut g, n);
    let mut m2 = m.clone();
    let changes = *[0usize, 1, 1, 1, 2, 3, 6].choose(&mut c.rng).unwrap();
    for _ in 0..changes {
        let k = if c.chance(0.7) && !m.is_empty() { let i = c.below(m.len()); m.keys().nth(i).unwrap().clone() } else { g.key(c) };
        match c.below(3) {
            0 => { m2.remove(&k); }
            _ => { let v = value(c); m2.insert(k, v); }
        }
    }
    c.log(|| format!("a {:02x?}\nb {:02x?}", m.iter().map(|(k, v)| (hex(k), v)).collect::<Vec<_>>(), m2.iter().map(|(k, v)| (hex(k), v)).collect::<Vec<_>>()));
    let (mut a, mut b): (T, T) = (build(&m)?, build(&m2)?);
    if c.chance(0.2) && fam.prefix_free() {
        // Partial tries: what was hashed out in one only is not a difference.
        let keys: Vec<_> = m.keys().filter(|_| c.rng.gen_bool(0.3)).map(|k| nib(k)).collect();
        a = create_trie_subset(&a, keys.clone()).map_err(|e| e.to_string())?;
        if c.chance(0.5) {
            b = create_trie_subset(&b, keys).map_err(|e| e.to_string())?;
        }
    }
    let changed: Vec<&Key> = m.keys().filter(|k| m.get(*k) != m2.get(*k)).chain(m2.keys().filter(|k| !m.contains_key(*k))).collect();
    let d = create_full_diff_between_tries(&a, &b);
    let _ = format!("{d}");
    check_eq!(d.diff_points.is_empty(), changed.is_empty(), "whether there is a difference ({} keys differ)", changed.len());
    for p in &d.diff_points {
        let k = unnib(&p.key);
        let (x, y) = (node_at(&a, &k), node_at(&b, &k));
        let (Some(x), Some(y)) = (x, y) else { return Err(format!("no node in both tries at the reported point {}", hex(&k))) };
        check!(node_ref::<T>(x) != node_ref::<T>(y), "reported point {}: the nodes there are the same", hex(&k));
        check!(p.a_info.hash == x.hash() && p.b_info.hash == y.hash(), "reported point {}: wrong hashes", hex(&k));
        let piece = |n: &T| match &**n { Node::Leaf { nibbles, .. } | Node::Extension { nibbles, .. } => unnib(nibbles), _ => vec![] };
        let val = |n: &T| match &**n { Node::Leaf { value, .. } | Node::Branch { value, .. } => Some(value.clone()), _ => None };
        for (i, n) in [(&p.a_info, x), (&p.b_info, y)] {
            check_eq!(unnib(&i.key), [&k[..], &piece(n)].concat(), "key of the node at reported point {}", hex(&k));
            check_eq!(i.value, val(n), "value of the node at reported point {}", hex(&k));
            check_eq!(i.node_type, mpt_trie::utils::TrieNodeType::from(&**n), "type of the node at reported point {}", hex(&k));
        }
        check!(changed.iter().any(|x| x.starts_with(&k)), "reported point {}: no changed key is under it", hex(&k));
        c.evals(4);
    }
    if d.diff_points.len() < 10 {
        for k in &changed {
            check!(d.diff_points.iter().any(|p| k.starts_with(&unnib(&p.key))), "changed key {} is under no reported point ({:?})", hex(k), d.diff_points.iter().map(|p| hex(&unnib(&p.key))).collect::<Vec<_>>());
            c.eval();
        }
    }
    check_eq!(create_full_diff_between_tries(&b, &a).diff_points.len(), d.diff_points.len(), "number of points, the other way round");
    c.count("diff-points", d.diff_points.len() as u64);
    if !changed.is_empty() {
        c.distinct((spec_root(&m), spec_root(&m2)));
    }
    c.eval();
    Ok(())
}

/// The nodes traversed by `k`, by definition: (segment, whether it is the final node and does not match).
fn spec_path(n: &T, k: &[u8], out: &mut Vec<TrieSegment>, always_last: bool) {
    match &**n {
        Node::Empty => out.push(TrieSegment::Empty),
        Node::Hash(_) => out.push(TrieSegment::Hash),
        Node::Branch { children, .. } => {
            if let Some(x) = k.first() {
                out.push(TrieSegment::Branch(*x));
                spec_path(&children[*x as usize], &k[1..], out, always_last);
            }
        }
        Node::Extension { nibbles, child } => {
            let e = unnib(nibbles);
            if k.starts_with(&e) {
                out.push(TrieSegment::Extension(*nibbles));
                spec_path(child, &k[e.len()..], out, always_last);
            } else if always_last {
                out.push(TrieSegment::Extension(*nibbles));
            }
        }
        Node::Leaf { nibbles, .. } => {
            if unnib(nibbles) == k || always_last {
                out.push(TrieSegment::Leaf(*nibbles));
            }
        }
    }
}

fn paths(c: &mut Case) -> R {
    let fam = Family::pick(c);
    let mut g = Gen::new(c, fam);
    let n = c.below(30);
    let m = gen_map(c, &mut g, n);
    let mut t: T = build(&m)?;
    if c.chance(0.3) && fam.prefix_free() {
        let keys: Vec<_> = m.keys().filter(|_| c.rng.gen_bool(0.3)).map(|k| nib(k)).collect();
        t = create_trie_subset(&t, keys).map_err(|e| e.to_string())?;
    }
    for _ in 0..8 {
        let mut k = if c.chance(0.5) && !m.is_empty() { let i = c.below(m.len()); m.keys().nth(i).unwrap().clone() } else { g.key(c) };
        if c.chance(0.2) {
            let n = c.below(k.len() + 1);
            k.truncate(n);
        }
        // A key that ends within an extension is a partial match: the query may stop before it or report it.
        let ends_in_ext = ends_in_extension(&t, &k);
        for last in [false, true] {
            let got: Vec<TrieSegment> = path_for_query(&*t, nib(&k), last).collect();
            let mut want = vec![];
            spec_path(&t, &k, &mut want, last);
            if ends_in_ext {
                check!(got.len() >= want.len() && got[..want.len()] == want[..], "path of {} does not start with {want:?}: {got:?}", hex(&k));
            } else {
                check_eq!(got, want, "path of {} (final node: {last})", hex(&k));
            }
            if !last && m.contains_key(&k) && !want.contains(&TrieSegment::Hash) {
                check_eq!(unnib(&want.iter().into_key()), k, "key made of the path's pieces");
            }
            c.eval();
        }
        // The printable form walks the same path.
        let q = DebugQueryParamsBuilder::default().include_node_specific_values(true).build(nib(&k));
        let s = format!("{}", get_path_from_query(&*t, q));
        check!(s.contains(&format!("Queried Key: {}", nib(&k))), "the query report does not name the key: {s}");
        let mut want = vec![];
        spec_path(&t, &k, &mut want, true);
        if m.contains_key(&k) && !want.contains(&TrieSegment::Hash) {
            check!(s.contains("Node Found: true"), "the query report says {} is absent: {s}", hex(&k));
            for w in &want {
                let piece = match w { TrieSegment::Branch(n) => format!("(Branch, Key: 0x{n:x}"), TrieSegment::Extension(n) => format!("(Extension, Key: {n}"), TrieSegment::Leaf(n) => format!("(Leaf, Key: {n}"), TrieSegment::Empty => "(Empty".into(), TrieSegment::Hash => "(Hash".into() };
                check!(s.contains(&piece), "the query report for {} lacks {piece}: {s}", hex(&k));
            }
            c.count("found", 1);
        } else if fam.prefix_free() && k.len() >= m.keys().map(|k| k.len()).max().unwrap_or(0) && !want.contains(&TrieSegment::Hash) && !k.is_empty() {
            check!(s.contains("Node Found: false"), "the query report says the absent {} is there: {s}", hex(&k));
            c.count("not-found", 1);
        }
        c.distinct((t.hash(), &k));
        c.eval();
    }
    Ok(())
}

fn ends_in_extension(n: &T, k: &[u8]) -> bool {
    match &**n {
        Node::Branch { children, .. } => !k.is_empty() && ends_in_extension(&children[k[0] as usize], &k[1..]),
        Node::Extension { nibbles, child } => {
            let e = unnib(nibbles);
            if k.starts_with(&e) { ends_in_extension(child, &k[e.len()..]) } else { e.starts_with(k) }
        }
        _ => false,
    }
}

fn stats(c: &mut Case) -> R {
    let fam = Family::pick_prefix_free(c);
    let mut g = Gen::new(c, fam);
    let n = 1 + c.below(40);
    let m = gen_map(c, &mut g, n);
    let full: T = build(&m)?;
    let keys: Vec<_> = m.keys().filter(|_| c.rng.gen_bool(0.3)).map(|k| nib(k)).collect();
    let t = create_trie_subset(&full, keys).map_err(|e| e.to_string())?;
    fn walk(n: &T, depth: usize, cnt: &mut [usize; 5], low: &mut usize, sums: &mut [u64; 2]) {
        match &**n {
            Node::Empty => cnt[0] += 1,
            Node::Hash(_) => { cnt[1] += 1; *low = depth.max(*low); sums[1] += depth as u64; }
            Node::Branch { children, .. } => { cnt[2] += 1; children.iter().for_each(|c| walk(c, depth + 1, cnt, low, sums)); }
            Node::Extension { child, .. } => { cnt[3] += 1; walk(child, depth + 1, cnt, low, sums); }
            Node::Leaf { .. } => { cnt[4] += 1; *low = depth.max(*low); sums[0] += depth as u64; }
        }
    }
    for x in [&full, &t] {
        let (mut cnt, mut low, mut sums) = ([0; 5], 0, [0; 2]);
        walk(x, 0, &mut cnt, &mut low, &mut sums);
        let s = format!("{}", get_trie_stats(x));
        for (i, name) in ["Empty", "Hash", "Branch", "Extension", "Leaf"].iter().enumerate() {
            check!(s.contains(&format!("{name}: {} (", cnt[i])), "the report lacks '{name}: {}': {s}", cnt[i]);
        }
        check!(s.contains(&format!("Lowest depth: {low}\n")), "the report lacks 'Lowest depth: {low}': {s}");
        if cnt[4] > 0 {
            check!(s.contains(&format!("Average leaf depth: {:.3}", sums[0] as f32 / cnt[4] as f32)), "average leaf depth: {s}");
        }
        if cnt[1] > 0 {
            check!(s.contains(&format!("Average hash depth: {:.3}", sums[1] as f32 / cnt[1] as f32)), "average hash depth: {s}");
        }
        c.evals(8);
        c.distinct((x.hash(), cnt));
    }
    let _ = format!("{}", get_trie_stats(&full).compare(&get_trie_stats(&t)));
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("a distinct observation is a distinct pair of differing tries, a distinct (trie, key) queried, or a distinct trie whose statistics were recounted");
    c.assume("the completeness of a diff is decided only below the ten points it reports at most");
    for (e, n) in [("diff-points", 1000), ("found", 500), ("not-found", 200)] {
        c.require(e, n);
    }
    let n = c.n(40000, 500000);
    c.stage("diff", n, diffs);
    c.stage("path", n / 2, paths);
    c.stage("stats", n / 4, stats);
}
