//! Worlds that are sent to the decoder arrive as they were sent.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use ethereum_types::{Address, H256, U256};
use evm_arithmetization::tries::{StateMpt, StorageTrie};
use evm_arithmetization::world::Type1World;
use keccak_hash::keccak;
use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie};
use evm_arithmetization::generation::mpt::AccountRlp;
use evm_arithmetization::tries::MptKey;
use trace_decoder::{BlockTraceTriePreImages, SeparateStorageTriesPreImage, SeparateTriePreImage, SeparateTriePreImages, ContractCodeUsage, TxnInfo, TxnMeta, TxnTrace};
use vh_core::*;
use vh_evm::block::*;
use vh_evm::gen::*;
use vh_evm::model::{node_root, rlp_str, spec_root};
use vh_evm::refevm::*;

use crate::blk::*;
use crate::tree::*;
use crate::w02::{decode, lookup};

fn num64(c: &mut Case) -> u64 {
    match c.below(6) {
        0 => 0,
        1 => 1,
        2 => pick(c, &[23, 24, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX]),
        3 => c.rng.gen(),
        _ => c.below(300) as u64,
    }
}
/// A world with accounts of every kind.
pub fn any_world(c: &mut Case) -> World {
    let mut w = World::new();
    w.insert(beacon_address(), Acct { nonce: 1, code: Arc::new(beacon_code()), ..Default::default() });
    let n = pick(c, &[0usize, 1, 2, 3, 10, 30, 100]);
    for _ in 0..n {
        let mut x = Acct { nonce: num64(c), balance: word(c), ..Default::default() };
        if c.chance(0.4) {
            let len = pick(c, &[1usize, 2, 23, 24, 55, 56, 255, 256, 300, 24576]);
            x.code = Arc::new((0..len).map(|_| c.rng.gen()).collect());
        }
        if c.chance(0.4) {
            for _ in 0..pick(c, &[1usize, 2, 5, 40]) {
                let v = match c.below(4) {
                    0 => U256::from(c.below(256)),
                    1 => U256::one() << c.below(256),
                    _ => word(c),
                };
                if !v.is_zero() {
                    x.storage.insert(word(c), v);
                }
            }
        }
        if !x.empty() {
            w.insert(Address::from(c.rng.gen::<[u8; 20]>()), x);
        }
    }
    let st = w.get_mut(&beacon_address()).unwrap();
    for i in 0..c.below(4) {
        st.storage.insert(U256::from(i * 3000), 1.into());
    }
    w
}
fn any_keep(c: &mut Case, w: &World) -> Keep {
    let mut k = Keep::default();
    let p = pick(c, &[0.0, 0.1, 0.5, 1.0]);
    for (a, x) in w {
        if c.chance(p) {
            let e = k.accounts.entry(path_of(&a.0)).or_default();
            let q = pick(c, &[0.0, 0.5, 1.0]);
            for s in x.storage.keys() {
                if c.chance(q) {
                    e.insert(slot_path(*s));
                }
            }
            if c.chance(0.2) {
                e.insert(slot_path(word(c)));
            }
        }
    }
    for _ in 0..c.below(3) {
        k.accounts.entry(path_of(&c.rng.gen::<[u8; 20]>())).or_default();
    }
    k
}

/// The trie holds what the tree shows, and hides what it hides.
fn same(have: &HashedPartialTrie, want: &T, what: &str) -> R {
    check_eq!(have.hash(), want.hash(), "{what}: root");
    check_eq!(node_root(have), want.hash(), "{what}: root, not from a cache");
    for (k, v) in want.leaves() {
        let Some(x) = lookup(have, &k) else {
            return Err(format!("{what}: {} is hidden", hex::encode(&k)));
        };
        check_eq!(x, Some(v.bytes()), "{what}: {}", hex::encode(&k));
    }
    Ok(())
}
fn haddr(path: &[u8]) -> H256 {
    let mut b = [0u8; 32];
    b.iter_mut().zip(path.chunks(2)).for_each(|(x, p)| *x = p[0] << 4 | p[1]);
    H256(b)
}

pub fn preimages(c: &mut Case) -> R {
    let w = any_world(c);
    let mut keep = any_keep(c, &w);
    let env = gen_env(c);
    let i = env.timestamp % 8191;
    keep.accounts.entry(path_of(&beacon_address().0)).or_default().extend([slot_path(i), slot_path(i + 8191)]);
    let pruned = c.chance(0.8);
    let mut blk = crate::blk::blk(c, w, env, vec![], vec![])?;
    let form = Form { direct: c.chance(0.4), pruned: false, near: true };
    let whole = state_tree(&blk.start);
    let shown = if pruned { keep.prune(&whole, true) } else { whole };
    c.log(|| format!("{form:?} keep {keep:?}\n{}", blk.describe()));
    let read: Vec<Address> = blk.start.iter().filter(|(a, x)| shown.leaves().iter().any(|l| l.0 == path_of(&a.0)) && !x.code.is_empty()).map(|x| *x.0).filter(|_| c.chance(0.7)).collect();
    let mut bt = blk.trace_of(c, form, shown.clone(), &read.iter().map(|a| blk.start[a].code.to_vec()).collect());
    if !read.is_empty() {
        bt.txn_info.push(TxnInfo {
            traces: read.iter().map(|a| (*a, TxnTrace { code_usage: Some(ContractCodeUsage::Read(keccak(&*blk.start[a].code))), ..Default::default() })).collect(),
            meta: TxnMeta { byte_code: vec![0xc0], new_receipt_trie_node_byte: encode_receipt(&Receipt { success: true, gas_used: 7, logs: vec![] }, 7, 0), gas_used: 7 },
        });
    }
    blk.stats = Default::default();
    let other = blk.other(c);
    let (gs, ob) = decode(bt, other, 1 + c.below(5))?;
    c.eval();
    check_eq!(gs[0].tries.state_trie.hash(), shown.hash(), "state root at the start");
    for a in &read {
        let x = &*blk.start[a].code;
        check_eq!(gs[0].contract_code.get(&keccak(x)), Some(x), "code of {a:?}");
    }
    c.count("codes", read.len() as u64);
    // after the beacon roots were stored
    let whole = state_tree(&blk.begun);
    let shown = if pruned { keep.prune(&whole, true) } else { whole };
    let world = ob.data[0].tries.world.clone();
    check_arrived(c, world, &shown)
}
/// Tries that contradict each other, or are none of a world.
pub fn misfits(c: &mut Case) -> R {
    let w = any_world(c);
    let env = gen_env(c);
    let blk = crate::blk::blk(c, w, env, vec![], vec![])?;
    let whole = state_tree(&blk.start);
    let form = Form { direct: true, pruned: false, near: true };
    let mut bt = blk.trace_of(c, form, whole, &Default::default());
    let BlockTraceTriePreImages::Separate(SeparateTriePreImages { state: SeparateTriePreImage::Direct(state), storage: SeparateStorageTriesPreImage::MultipleTries(storage) }) = &mut bt.trie_pre_images else {
        unreachable!()
    };
    let with: Vec<Address> = blk.start.iter().filter(|x| !x.1.storage.is_empty()).map(|x| *x.0).collect();
    let a = if with.is_empty() || c.chance(0.3) { pick(c, &blk.start.keys().copied().collect::<Vec<_>>()) } else { pick(c, &with) };
    let x = &blk.start[&a];
    let path = MptKey::from(a).into_nibbles();
    let what = match c.below(6) {
        0 if !x.storage.is_empty() => {
            storage.insert(keccak(a.0), SeparateTriePreImage::Direct(Default::default()));
            "no storage, where the account has some"
        }
        1 => {
            let mut s = x.storage.clone();
            let k = s.keys().next().copied().unwrap_or_default();
            let v = s.entry(k).or_default();
            *v = if *v == 1.into() { 2.into() } else { 1.into() };
            storage.insert(keccak(a.0), SeparateTriePreImage::Direct(to_trie(&storage_map(&s))));
            "storage with another value"
        }
        2 => {
            let mut s = x.storage.clone();
            let k = word(c);
            s.entry(k).or_insert(1.into());
            if s.len() == x.storage.len() {
                return Ok(());
            }
            storage.insert(keccak(a.0), SeparateTriePreImage::Direct(to_trie(&storage_map(&s))));
            "storage with one more slot"
        }
        3 => {
            let mut acct = AccountRlp { nonce: x.nonce.into(), balance: x.balance, storage_root: H256(c.rng.gen()), code_hash: keccak(&*x.code) };
            if x.storage.is_empty() {
                storage.insert(keccak(a.0), SeparateTriePreImage::Direct(Default::default()));
            } else {
                acct.storage_root = evm_arithmetization::generation::mpt::AccountRlp::default().storage_root;
            }
            state.insert(path, rlp::encode(&acct).to_vec()).unwrap();
            "another storage root in the account"
        }
        4 => {
            let mut v = rlp::encode(&AccountRlp { nonce: x.nonce.into(), balance: x.balance, storage_root: spec_root(&storage_map(&x.storage)), code_hash: keccak(&*x.code) }).to_vec();
            v.truncate(c.below(v.len() - 1) + 1);
            state.insert(path, v).unwrap();
            "an account that is not one"
        }
        _ => {
            let mut v = rlp::encode(&AccountRlp { nonce: 1.into(), ..Default::default() }).to_vec();
            if c.chance(0.5) {
                v = rlp_str(&[1]);
            }
            let mut t = mpt_trie::partial_trie::HashedPartialTrie::default();
            let mut k = path;
            k.truncate_n_nibbles_back_mut(1 + c.below(63));
            t.insert(k, v).unwrap();
            *state = t;
            "an account at a path that is too short"
        }
    };
    if blk.start.len() == 1 && what.ends_with("slot") {
        return Ok(());
    }
    let other = blk.other(c);
    let hint = 1 + c.below(3);
    c.eval();
    c.count("refused tries", 1);
    c.log(|| format!("{what}: {a:?}"));
    match catch_unwind(AssertUnwindSafe(|| decode(bt, other, hint).is_ok())) {
        Ok(true) => Err(format!("accepted: {what}")),
        _ => Ok(()),
    }
}
fn check_arrived(c: &mut Case, world: Type1World, shown: &T) -> R {
    let state = world.state_trie().clone();
    same(&state, shown, "state")?;
    let (mut state, storage) = world.into_state_and_storage();
    arrived(c, &mut state, &storage, shown)
}
fn arrived(c: &mut Case, state: &mut StateMpt, storage: &BTreeMap<H256, StorageTrie>, shown: &T) -> R {
    let mut n = 0;
    for (k, v) in shown.leaves() {
        let V::Acct(a) = v else { unreachable!() };
        let h = haddr(&k);
        let got = state.get(h).ok_or(format!("account {h:?} is not there"))?;
        n += 1;
        check_eq!((got.nonce, got.balance, got.storage_root), (a.nonce.into(), a.balance, a.storage.hash()), "account {h:?}");
        match storage.get(&h) {
            None => check!(false, "account {h:?} has no storage"),
            Some(s) => same(s.as_hashed_partial_trie(), &a.storage, &format!("storage of {h:?}"))?,
        }
        c.count("slots", a.storage.leaves().len() as u64);
    }
    check_eq!(state.iter().count(), n, "accounts shown");
    c.evals(n as u64);
    c.count("accounts", n as u64);
    c.count("hidden nodes", shown.hashes() as u64);
    c.distinct(shown.hash());
    c.sample(|| format!("{n} accounts shown, {} nodes hidden, root {:?}", shown.hashes(), shown.hash()));
    Ok(())
}

// ---------------------------------------------------------------- type 1
/// The reference reader of the wire format.
#[derive(Debug)]
enum N {
    T(T),
    Code(Vec<u8>),
}
fn head(b: &mut &[u8], major: u8) -> Option<u64> {
    let (&x, rest) = b.split_first()?;
    *b = rest;
    if x >> 5 != major {
        return None;
    }
    let n = match x & 31 {
        v @ 0..=23 => return Some(v as u64),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => return None,
    };
    if b.len() < n {
        return None;
    }
    let v = b[..n].iter().fold(0u64, |a, x| a << 8 | *x as u64);
    *b = &b[n..];
    Some(v)
}
fn bytes(b: &mut &[u8]) -> Option<Vec<u8>> {
    let n = head(b, 2)? as usize;
    if b.len() < n {
        return None;
    }
    let v = b[..n].to_vec();
    *b = &b[n..];
    Some(v)
}
fn some_bytes(b: &mut &[u8]) -> Option<Vec<u8>> {
    bytes(b).filter(|x| !x.is_empty())
}
fn key(b: &mut &[u8]) -> Option<Nibs> {
    let v = some_bytes(b)?;
    if v.len() == 1 {
        return (v[0] < 16).then(|| vec![v[0]]);
    }
    if v[0] > 3 {
        return None;
    }
    let mut n = nibbles(&v[1..]);
    if v[0] & 1 == 1 && n.pop()? != 0 {
        return None;
    }
    Some(n)
}
/// None: not of the format.
fn read(bytes_: &[u8], stray: &mut bool) -> Option<(T, BTreeSet<Vec<u8>>)> {
    let (&h, mut b) = bytes_.split_first()?;
    if h > 1 {
        return None;
    }
    let mut codes = BTreeSet::new();
    let mut st: Vec<N> = vec![];
    let mut pop_t = |st: &mut Vec<N>| match st.pop()? {
        N::T(t) => Some(t),
        N::Code(_) => {
            // Code where a node should be: may be taken as code that is sent along.
            *stray = true;
            None
        }
    };
    while let Some((&op, rest)) = b.split_first() {
        b = rest;
        let n = match op {
            0 => {
                let k = key(&mut b)?;
                N::T(T::Leaf(k, V::Slot(some_bytes(&mut b)?)))
            }
            1 => {
                let k = key(&mut b)?;
                N::T(T::Ext(k, Box::new(pop_t(&mut st)?)))
            }
            2 => {
                let mask = head(&mut b, 0)?;
                if mask >> 16 != 0 {
                    return None;
                }
                let mut cs = vec![T::Empty; 16];
                for i in (0..16).rev().filter(|i| mask >> i & 1 == 1) {
                    cs[i] = pop_t(&mut st)?;
                }
                N::T(T::Branch(cs))
            }
            3 => {
                if b.len() < 32 {
                    return None;
                }
                let h = H256::from_slice(&b[..32]);
                b = &b[32..];
                N::T(T::Hash(h))
            }
            4 => N::Code(some_bytes(&mut b)?),
            5 => {
                let k = key(&mut b)?;
                let (&f, rest) = b.split_first()?;
                b = rest;
                if f > 15 {
                    return None;
                }
                let nonce = if f & 4 != 0 { head(&mut b, 0)? } else { 0 };
                let balance = if f & 8 != 0 {
                    let v = bytes(&mut b)?;
                    if v.len() > 32 {
                        return None;
                    }
                    U256::from_big_endian(&v)
                } else {
                    U256::zero()
                };
                if f & 1 != 0 {
                    head(&mut b, 0)?;
                }
                let storage = if f & 2 != 0 { pop_t(&mut st)? } else { T::Empty };
                let code = if f & 1 != 0 {
                    match st.pop()? {
                        N::T(T::Hash(h)) => Code::Hash(h),
                        N::Code(x) => {
                            codes.insert(x.clone());
                            Code::Bytes(x)
                        }
                        _ => return None,
                    }
                } else {
                    Code::None
                };
                N::T(T::Leaf(k, V::Acct(Box::new(AcctNode { nonce, balance, code, storage }))))
            }
            6 => N::T(T::Empty),
            _ => return None,
        };
        st.push(n);
    }
    match (st.len(), st.pop()) {
        (1, Some(N::T(t))) if !matches!(t, T::Hash(_)) => Some((t, codes)),
        _ => None,
    }
}
/// Right leaves at the right depth; and whether no other tree has the same content.
fn wellformed(t: &T, depth: usize, state: bool) -> Option<bool> {
    Some(match t {
        T::Empty | T::Hash(_) => depth <= 64,
        T::Leaf(k, v) => {
            let ok = match v {
                V::Acct(a) if state => wellformed(&a.storage, 0, false)?,
                V::Slot(v) if !state => v[0] != 0 && v.len() <= 32,
                _ => return None,
            };
            // The format does not say how deep storage is.
            if depth + k.len() > 64 || (state && depth + k.len() != 64) {
                return None;
            }
            ok && depth + k.len() == 64
        }
        T::Ext(k, c) => wellformed(c, depth + k.len(), state)? && matches!(**c, T::Branch(_) | T::Hash(_)),
        T::Branch(cs) => {
            let mut ok = cs.iter().filter(|c| **c != T::Empty).count() >= 2;
            for c in cs {
                ok &= wellformed(c, depth + 1, state)?;
            }
            ok && depth < 64
        }
    })
}

fn real(b: &[u8]) -> Option<(StateMpt, BTreeMap<H256, StorageTrie>, BTreeSet<Vec<u8>>)> {
    catch_unwind(AssertUnwindSafe(|| trace_decoder::verif_hooks::type1(b).ok())).ok().flatten()
}
fn judge1(c: &mut Case, b: &[u8], byte_level: bool) -> R {
    c.eval();
    c.log(|| hex::encode(b));
    let have = real(b);
    let mut stray = false;
    let want = read(b, &mut stray).and_then(|(t, codes)| wellformed(&t, 0, true).map(|ok| (t, codes, ok)));
    match (have, want) {
        (Some((mut s, st, codes)), Some((t, want, canonical))) => {
            check_eq!(codes, want, "codes");
            if canonical {
                c.count("accepted", 1);
                same(s.as_hashed_partial_trie(), &t, "state")?;
                arrived(c, &mut s, &st, &t)?;
            } else {
                c.count("accepted, though not canonical", 1);
                for (k, v) in t.leaves() {
                    let got = lookup(s.as_hashed_partial_trie(), &k);
                    let V::Acct(a) = v else { unreachable!() };
                    let Some(Some(x)) = got else { return Err(format!("account {} is not there", hex::encode(&k))) };
                    let x: evm_arithmetization::generation::mpt::AccountRlp = rlp::decode(&x).unwrap();
                    check_eq!((x.nonce, x.balance), (a.nonce.into(), a.balance), "account {}", hex::encode(&k));
                }
            }
        }
        (None, Some((t, _, true))) => return Err(format!("a tree that is right is refused: {t:?}")),
        (None, Some(_)) => c.count("refused, not canonical", 1),
        (Some((s, ..)), None) => {
            check!(byte_level || stray, "accepted, with root {:?}, though it is not of the format", s.root());
            c.count("accepted, in a looser encoding", 1);
        }
        (None, None) => c.count("refused", 1),
    }
    Ok(())
}
fn parts(c: &mut Case) -> Vec<Vec<u8>> {
    let w = any_world(c);
    let mut t = state_tree(&w);
    if c.chance(0.7) {
        let near = c.chance(0.5);
        t = any_keep(c, &w).prune(&t, near);
    }
    let p = pick(c, &[0.0, 0.5, 1.0]);
    let mut rng = c.rng.clone();
    t.each(&mut vec![], &mut |_, a| {
        if let Code::Bytes(b) = &a.code {
            if rng.gen_bool(p) {
                a.code = Code::Hash(keccak(b));
            }
        }
    });
    let mut v = vec![];
    wire(&t, &mut || rng.gen_bool(0.3), &mut v);
    v
}
pub fn wire1(c: &mut Case) -> R {
    let v = parts(c);
    let b = [vec![c.below(2) as u8], v.concat()].concat();
    judge1(c, &b, false)?;
    // changed instructions
    for _ in 0..12 {
        let mut m = v.clone();
        let mut loose = false;
        for _ in 0..1 + c.below(2) {
            let i = c.below(m.len());
            let what = c.below(10);
            loose |= what == 5 || what == 7;
            match what {
                0 if m.len() > 1 => {
                    m.remove(i);
                }
                1 => {
                    let x = m[i].clone();
                    m.insert(c.below(m.len() + 1), x);
                }
                2 => {
                    let j = c.below(m.len());
                    m.swap(i, j);
                }
                3 => m.insert(i, pick(c, &[vec![6], vec![0xbb], vec![4, 0x41, 0], [vec![3], vec![7; 32]].concat(), vec![8], vec![7], vec![1, 0x41, 3], vec![2, 0x18, 3], vec![2, 0x03]])),
                4 => {
                    // another mask
                    if let Some(j) = m.iter().position(|x| x[0] == 2) {
                        m[j] = [vec![2], cbor_head(0, pick(c, &[0u64, 1, 2, 3, 0x8001, 0xffff, 0x1_0001, 1 << 63, c_rand()]))].concat();
                    }
                }
                5 => {
                    // flags and counts of an account
                    if let Some(j) = (0..m.len()).filter(|j| m[*j][0] == 5).nth(c.below(4)) {
                        let k = 1 + 1 + (m[j][1] & 31) as usize;
                        if k < m[j].len() {
                            m[j][k] ^= 1 << c.below(5);
                        }
                    }
                }
                6 => {
                    // shorter or longer keys
                    if m[i].len() > 3 && m[i][0] != 3 && m[i][0] != 4 {
                        let n = pick(c, &[1usize, 2, 3, 4, 5, 6, 63, 64, 65, 66, 68, 128]);
                        let k: Vec<u8> = (0..n).map(|_| c.below(16) as u8).collect();
                        let mut st = || false;
                        m[i] = match m[i][0] {
                            1 => [vec![1], wire_key(&k, &mut st)].concat(),
                            0 => [vec![0], wire_key(&k, &mut st), vec![0x41, 9]].concat(),
                            _ => m[i].clone(),
                        };
                    }
                }
                7 => {
                    // a nibble of a key or a bit of a hash
                    let n = m[i].len();
                    if n > 3 {
                        let j = 3 + c.below((n - 3).min(30));
                        m[i][j] ^= 1 << c.below(8);
                    }
                }
                8 => {
                    // a longer key
                    if let Some(j) = (0..m.len()).filter(|j| [0, 1, 5].contains(&m[*j][0])).nth(c.below(3)) {
                        let mut b = &m[j][1..];
                        let Some(mut k) = key(&mut b) else { continue };
                        let rest = b.to_vec();
                        for _ in 0..pick(c, &[1usize, 2, 4, 8]) {
                            k.push(c.below(16) as u8);
                        }
                        m[j] = [vec![m[j][0]], wire_key(&k, &mut || false), rest].concat();
                    }
                }
                _ => m.truncate(1 + c.below(m.len())),
            }
        }
        judge1(c, &[vec![0u8], m.concat()].concat(), loose)?;
    }
    // changed bytes
    let b = [vec![1u8], v.concat()].concat();
    for _ in 0..8 {
        let mut m = b.clone();
        for _ in 0..1 + c.below(2) {
            let i = c.below(m.len());
            match c.below(4) {
                0 => m[i] = c.rng.gen(),
                1 => m[i] ^= 1 << c.below(8),
                2 => m.truncate(i.max(1)),
                _ => m.insert(i, c.rng.gen()),
            }
        }
        judge1(c, &m, true)?;
    }
    Ok(())
}
fn c_rand() -> u64 {
    0x5555
}

pub fn run(k: &mut Check) {
    k.rule("one evaluation = one account of a world that was sent in one of the formats, compared (with its storage) with what arrived; or one byte string that is or is not of the format");
    k.assume("where CBOR allows several encodings, the strict one is specified; looser ones may be accepted or refused");
    for (e, n) in [("accounts", 20000), ("hidden nodes", 5000), ("slots", 20000), ("refused", 2000), ("accepted", 500), ("codes", 500), ("type 2 fields", 3000), ("refused tries", 1000)] {
        k.require(e, n);
    }
    let n = k.n(4000, 80000);
    k.stage("pre-images", n, preimages);
    let n = k.n(4000, 80000);
    k.stage("pre-images that do not fit", n / 2, misfits);
    k.stage("wire format, type 1", n, wire1);
    let n = k.n(3000, 60000);
    k.stage("wire format, type 2", n, crate::type2::wire2);
}
#[allow(unused)]
fn unused() {
    let _ = (rlp_str(&[]), spec_root(&Default::default()));
}
