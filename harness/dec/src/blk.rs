//! Blocks as a node would describe them: transactions run on the reference
//! EVM, with what each of them read and changed.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use ethereum_types::{Address, H256, U256};
use keccak_hash::keccak;
use trace_decoder::{
    BlockLevelData, BlockTrace, BlockTraceTriePreImages, CombinedPreImages, ContractCodeUsage, OtherBlockData, SeparateStorageTriesPreImage, SeparateTriePreImage,
    SeparateTriePreImages, TxnInfo, TxnMeta, TxnTrace,
};
use vh_core::*;
use vh_evm::block::*;
use vh_evm::gen::*;
use vh_evm::model::rlp_str;
use vh_evm::refevm::{self, *};

use crate::tree::*;

pub struct Txn {
    pub tx: Tx,
    pub raw: Vec<u8>,
    pub receipt: Vec<u8>,
    pub ok: bool,
    pub gas: u64,
    pub cum: u64,
    pub bloom: [u8; 256],
    pub traces: BTreeMap<Address, TxnTrace>,
    /// State before and after.
    pub before: World,
    pub after: World,
    /// What it looked at.
    pub touched: BTreeSet<Address>,
    pub slots: BTreeSet<(Address, U256)>,
}
pub struct Blk {
    pub env: Env,
    /// Before anything, and after the beacon root was stored.
    pub start: World,
    pub begun: World,
    pub txs: Vec<Txn>,
    /// In gwei.
    pub withdrawals: Vec<(Address, U256)>,
    pub end: World,
    pub stats: Stats,
}

fn h(x: U256) -> H256 {
    H256(b32(x))
}

/// One transaction's trace, out of what it did.
fn traces(c: &mut Case, before: &World, after: &World, tx: &Tx, st: &Stats) -> (BTreeMap<Address, TxnTrace>, BTreeSet<Address>, BTreeSet<(Address, U256)>) {
    let mut touched = st.touched.clone();
    let mut slots = st.slots.clone();
    for (a, ks) in &tx.access_list {
        touched.insert(*a);
        slots.extend(ks.iter().map(|k| (*a, *k)));
    }
    touched.extend(slots.iter().map(|x| x.0));
    let mut out = BTreeMap::new();
    for a in &touched {
        let (b, n) = (before.get(a), after.get(a));
        let mut t = TxnTrace::default();
        let reads = slots.iter().filter(|x| x.0 == *a).map(|x| x.1);
        let (b0, n0) = (b.cloned().unwrap_or_default(), n.cloned().unwrap_or_default());
        let gone = b.is_some() && n.is_none();
        if !gone {
            t.balance = (b0.balance != n0.balance).then_some(n0.balance);
            t.nonce = (b0.nonce != n0.nonce).then_some(n0.nonce.into());
        } else {
            t.self_destructed = true;
            t.balance = (!b0.balance.is_zero() && c.chance(0.3)).then_some(0.into());
        }
        for s in reads {
            let (x, y) = (b0.storage.get(&s), n0.storage.get(&s));
            if x != y && !gone {
                t.storage_written.insert(h(s), y.copied().unwrap_or_default());
                if c.chance(0.5) {
                    t.storage_read.insert(h(s));
                }
            } else if !gone && n.is_some() && c.chance(0.15) {
                // written, with what was there
                t.storage_written.insert(h(s), y.copied().unwrap_or_default());
            } else {
                t.storage_read.insert(h(s));
            }
        }
        if b.is_none() && n.is_none() && st.suicides.contains(a) && c.chance(0.5) {
            // came and went
            t.self_destructed = true;
        }
        if b0.code != n0.code && !n0.code.is_empty() {
            t.code_usage = Some(ContractCodeUsage::Write(n0.code.to_vec()));
        } else if st.code_read.contains(a) && b.is_some() && !(b0.code.is_empty() && c.chance(0.5)) {
            t.code_usage = Some(ContractCodeUsage::Read(keccak(&*b0.code)));
        }
        out.insert(*a, t);
    }
    (out, touched, slots)
}

pub fn blk(c: &mut Case, world: World, env: Env, list: Vec<(Tx, Vec<u8>)>, withdrawals: Vec<(Address, U256)>) -> R<Blk> {
    let start = world.clone();
    let mut w = world;
    beacon_update(&mut w, &env);
    let begun = w.clone();
    let mut stats = Stats::default();
    let mut cum = 0;
    let mut txs = vec![];
    for (tx, raw) in list {
        let before = w.clone();
        let Ok(r) = apply_tx(&mut w, &env, &tx, env.gas_limit - cum, &mut stats, &|_| None) else { continue };
        cum += r.gas_used;
        let (traces, touched, slots) = traces(c, &before, &w, &tx, &stats);
        for (a, x) in before.iter().chain(&w) {
            if before.get(a) != w.get(a) && !touched.contains(a) {
                return Err(format!("oracle: {a:?} {x:?} changed without being touched"));
            }
        }
        let receipt = encode_receipt(&r, cum, tx.ty);
        txs.push(Txn { traces, touched, slots, before, after: w.clone(), receipt, ok: r.success, gas: r.gas_used, cum, bloom: bloom(&r.logs), tx, raw });
    }
    for (a, v) in &withdrawals {
        w.entry(*a).or_default().balance += *v * 1_000_000_000u64;
    }
    w.retain(|_, a| !a.empty());
    Ok(Blk { env, start, begun, txs, withdrawals, end: w, stats })
}

/// A random block.
pub fn gen_blk(c: &mut Case) -> R<Blk> {
    loop {
        let (bs, _) = if c.chance(0.5) {
            let st = Style { fault: pick(c, &[0.0, 0.02]), precompiles: false };
            gen_block(c, st, 7)
        } else {
            let which = loop {
                let k = c.below(15);
                if k != 9 {
                    break k;
                }
            };
            vh_evm::scenario::play(c, which)
        };
        let last = bs.last().unwrap();
        if bs[0].first != 0 {
            continue;
        }
        let mut list: Vec<_> = last.list.iter().cloned().zip(last.txs.iter().cloned()).collect();
        if c.chance(0.06) {
            list.truncate(c.below(2));
        }
        let mut world = bs[0].before.clone();
        // More accounts and slots, so that there is something to leave out.
        for _ in 0..c.below(40) {
            let a = Address::from(c.rng.gen::<[u8; 20]>());
            let storage = (0..c.below(4)).map(|_| (word(c), U256::from(1 + c.below(9)))).collect();
            world.insert(a, Acct { nonce: c.below(300) as u64, balance: (1 + c.below(1 << 20)).into(), code: Default::default(), storage });
        }
        let mut env = last.env.clone();
        if c.chance(0.25) {
            // no one yet
            env.coinbase = Address::from_low_u64_be(0xc0_1000 + c.below(3) as u64);
        }
        for (a, x) in world.iter_mut() {
            if !x.code.is_empty() && *a != beacon_address() {
                for _ in 0..c.below(6) {
                    x.storage.insert(word(c), U256::from(1 + c.below(9)));
                }
            }
        }
        let mut near: Vec<Address> = list.iter().map(|x| x.0.sender).collect();
        near.extend(world.keys());
        near.push(Address::from_low_u64_be(0xbeef_0000_0001));
        near.push(ghost(1));
        near.push(env.coinbase);
        let wd = if c.chance(0.4) {
            (0..1 + c.below(4))
                .map(|_| {
                    let a = if c.chance(0.2) { Address::from(c.rng.gen::<[u8; 20]>()) } else { pick(c, &near) };
                    let x = c.below(1 << 30).into();
                    (a, pick(c, &[1.into(), 7.into(), U256::from(32_000_000_000u64), x, 0.into()]))
                })
                .collect()
        } else {
            vec![]
        };
        return with_neighbours(c, world, env, list, wd);
    }
}
/// The block; accounts that go away get neighbours that move up in the trie.
fn with_neighbours(c: &mut Case, world: World, env: Env, list: Vec<(Tx, Vec<u8>)>, wd: Vec<(Address, U256)>) -> R<Blk> {
    let b = blk(c, world, env, list, wd)?;
    let gone: BTreeSet<Address> = b.txs.iter().flat_map(|t| &t.touched).filter(|a| b.start.contains_key(*a) && b.txs.iter().any(|t| t.before.contains_key(*a) && !t.after.contains_key(*a))).copied().collect();
    if gone.is_empty() || c.chance(0.2) {
        return Ok(b);
    }
    let mut world = b.start.clone();
    for a in gone {
        c.count("accounts destroyed that were there", 1);
        let h = keccak(a.0);
        let mask = pick(c, &[0xc0u8, 0xf0, 0x80]);
        for _ in 0..1 + c.below(2) {
            let mut n = Address::from(c.rng.gen::<[u8; 20]>());
            while {
                let x = keccak(n.0);
                x[0] != h[0] || (x[1] ^ h[1]) & mask != 0
            } {
                n = Address::from(c.rng.gen::<[u8; 20]>());
            }
            world.insert(n, Acct { nonce: 1, ..Default::default() });
        }
    }
    let (env, list, wd) = (b.env.clone(), b.txs.into_iter().map(|t| (t.tx, t.raw)).collect(), b.withdrawals);
    blk(c, world, env, list, wd)
}
/// Contracts that are made where there is an account already, and go at once.
pub fn gone_blk(c: &mut Case) -> R<Blk> {
    let env = gen_env(c);
    let ks = keys();
    let mut world = World::new();
    world.insert(beacon_address(), Acct { nonce: 1, code: std::sync::Arc::new(beacon_code()), ..Default::default() });
    let mut nonces: Vec<u64> = ks.iter().map(|_| c.below(300) as u64).collect();
    for (k, n) in ks.iter().zip(&nonces) {
        world.insert(k.addr, Acct { nonce: *n, balance: U256::exp10(24), ..Default::default() });
    }
    for _ in 0..pick(c, &[0usize, 3, 20, 60]) {
        let a = Address::from(c.rng.gen::<[u8; 20]>());
        world.insert(a, Acct { balance: (1 + c.below(1 << 20)).into(), ..Default::default() });
    }
    let mut made = vec![];
    let mut list = vec![];
    for _ in 0..2 + c.below(5) {
        let k = c.below(ks.len().min(3));
        let again = !made.is_empty() && c.chance(0.4);
        let mut tx = Tx {
            ty: 2,
            sender: ks[k].addr,
            nonce: nonces[k],
            max_fee: env.base_fee + 2,
            max_prio: 1.into(),
            gas: 200_000,
            to: None,
            value: pick(c, &[0u64, 0, 5]).into(),
            data: vec![],
            access_list: vec![],
            blob_hashes: vec![],
            max_blob_fee: 0.into(),
        };
        if again {
            tx.to = Some(pick(c, &made));
        } else {
            let a = create_address(ks[k].addr, nonces[k]);
            if c.chance(0.8) {
                world.insert(a, Acct { balance: (1 + c.below(9)).into(), ..Default::default() });
            }
            made.push(a);
            let mut m = Asm::default();
            if c.chance(0.5) {
                m.push(7).push(c.below(3)).op(0x55);
            }
            match c.below(3) {
                0 => m.op(0x33),
                1 => m.op(0x30),
                _ => m.addr(ghost(c.below(3) as u64)),
            };
            m.op(0xff);
            tx.data = m.finish();
        }
        nonces[k] += 1;
        let raw = encode_tx(&tx, &ks[k], env.chain_id, true);
        list.push((tx, raw));
    }
    let wd = if !made.is_empty() && c.chance(0.3) { vec![(pick(c, &made), 3.into())] } else { vec![] };
    with_neighbours(c, world, env, list, wd)
}

/// A block of many small transactions.
pub fn long_blk(c: &mut Case) -> R<Blk> {
    let mut env = gen_env(c);
    env.gas_limit = 30_000_000;
    let ks = keys();
    let mut world = World::new();
    world.insert(beacon_address(), Acct { nonce: 1, code: std::sync::Arc::new(beacon_code()), ..Default::default() });
    let start = c.rng.gen::<u16>() as u64;
    for k in ks {
        world.insert(k.addr, Acct { nonce: start, balance: U256::exp10(24), ..Default::default() });
    }
    for _ in 0..c.below(300) {
        let a = Address::from(c.rng.gen::<[u8; 20]>());
        world.insert(a, Acct { balance: (1 + c.below(1 << 20)).into(), ..Default::default() });
    }
    let near: Vec<Address> = world.keys().copied().filter(|a| *a != beacon_address()).collect();
    let n = pick(c, &[17usize, 120, 127, 128, 129, 130, 200, 255, 256, 257, 300]);
    let mut nonces = vec![start; ks.len()];
    let mut list = vec![];
    for _ in 0..n {
        let k = c.below(ks.len());
        let to = if c.chance(0.2) { Address::from(c.rng.gen::<[u8; 20]>()) } else { pick(c, &near) };
        let ty = pick(c, &[0u8, 0, 1, 2, 2]);
        let tx = Tx {
            ty,
            sender: ks[k].addr,
            nonce: nonces[k],
            max_fee: env.base_fee + 2,
            max_prio: if ty < 2 { env.base_fee + 2 } else { 1.into() },
            gas: 30_000,
            to: Some(to),
            value: c.below(4).into(),
            data: (0..c.below(3)).map(|_| c.rng.gen()).collect(),
            access_list: vec![],
            blob_hashes: vec![],
            max_blob_fee: 0.into(),
        };
        nonces[k] += 1;
        let raw = encode_tx(&tx, &ks[k], env.chain_id, c.chance(0.7));
        list.push((tx, raw));
    }
    let wd = (0..c.below(20)).map(|_| (pick(c, &near), (1 + c.below(1 << 30)).into())).collect();
    blk(c, world, env, list, wd)
}

/// Sizes of the batches that the documentation promises.
pub fn sizes(n: usize, hint: usize) -> Vec<usize> {
    if n <= 1 {
        return vec![1, 1];
    }
    if n > hint {
        return (0..n).step_by(hint).map(|i| hint.min(n - i)).collect();
    }
    vec![n / 2, n - n / 2]
}

impl Blk {
    pub fn state(&self, done: usize) -> &World {
        if done == 0 {
            &self.begun
        } else {
            &self.txs[done - 1].after
        }
    }
    pub fn raws(&self) -> Vec<Vec<u8>> {
        self.txs.iter().map(|t| t.raw.clone()).collect()
    }
    pub fn receipts(&self) -> Vec<Vec<u8>> {
        self.txs.iter().map(|t| t.receipt.clone()).collect()
    }
    /// What has to be there at the start.
    pub fn keep(&self) -> Keep {
        let mut k = Keep::default();
        let b = k.accounts.entry(path_of(&beacon_address().0)).or_default();
        let i = self.env.timestamp % 8191;
        b.insert(slot_path(i));
        b.insert(slot_path(i + 8191));
        for t in &self.txs {
            for a in &t.touched {
                k.accounts.entry(path_of(&a.0)).or_default();
            }
            for (a, s) in &t.slots {
                k.accounts.entry(path_of(&a.0)).or_default().insert(slot_path(*s));
            }
        }
        for (a, _) in &self.withdrawals {
            k.accounts.entry(path_of(&a.0)).or_default();
        }
        k
    }
    pub fn shrinks(&self) -> bool {
        self.txs.iter().any(|t| t.traces.values().any(|x| x.self_destructed || x.storage_written.values().any(|v| v.is_zero()))) || self.env.parent_root.is_zero()
    }
    pub fn other(&self, c: &mut Case) -> OtherBlockData {
        let logs = self.txs.iter().fold([0u8; 256], |mut a, t| {
            a.iter_mut().zip(&t.bloom).for_each(|(x, y)| *x |= y);
            a
        });
        OtherBlockData {
            b_data: BlockLevelData {
                b_meta: metadata(&self.env, self.txs.last().map_or(0, |t| t.cum), &logs),
                b_hashes: evm_arithmetization::proof::BlockHashes { prev_hashes: self.env.prev_hashes.clone(), cur_hash: self.env.cur_hash },
                withdrawals: self.withdrawals.clone(),
            },
            checkpoint_state_trie_root: H256(c.rng.gen()),
            checkpoint_consolidated_hash: std::array::from_fn(|_| plonky2::field::types::Field::from_canonical_u32(c.rng.gen())),
            burn_addr: c.chance(0.3).then(|| Address::from(c.rng.gen::<[u8; 20]>())),
            ger_data: None,
        }
    }
    /// All code that is read before it is written in the block.
    pub fn needed(&self) -> BTreeSet<Vec<u8>> {
        let all = codes(&self.start);
        let mut out = BTreeSet::new();
        for t in &self.txs {
            for x in t.traces.values() {
                if let Some(ContractCodeUsage::Read(h)) = &x.code_usage {
                    if let Some(b) = all.get(h) {
                        out.insert(b.clone());
                    }
                }
            }
        }
        out
    }
    pub fn trace(&self, c: &mut Case, form: Form) -> BlockTrace {
        let mut t = state_tree(&self.start);
        if form.pruned {
            t = self.keep().prune(&t, form.near);
        }
        self.trace_of(c, form, t, &self.needed())
    }
    /// `needed`: the code that has to be there.
    pub fn trace_of(&self, c: &mut Case, form: Form, mut t: T, needed: &BTreeSet<Vec<u8>>) -> BlockTrace {
        let all: BTreeSet<Vec<u8>> = self.start.values().map(|a| a.code.to_vec()).filter(|x| !x.is_empty()).collect();
        let inline = !form.direct && c.chance(0.7);
        let mut code_db: BTreeSet<Vec<u8>> = if inline { BTreeSet::new() } else if c.chance(0.3) { all } else { needed.clone() };
        if c.chance(0.2) {
            code_db.insert(vec![0x5b; c.below(4)]);
        }
        t.each(&mut vec![], &mut |_, a| {
            if let Code::Bytes(b) = &a.code {
                if !(inline && needed.contains(b)) {
                    a.code = Code::Hash(keccak(b));
                }
            }
        });
        c.count("hidden nodes at the start", t.hashes() as u64);
        let pre = if form.direct {
            let mut storage = HashMap::new();
            let skip = c.chance(0.5);
            t.each(&mut vec![], &mut |path, a| {
                if !matches!(a.storage, T::Hash(_)) || !skip {
                    let mut b = [0u8; 32];
                    b.iter_mut().zip(path.chunks(2)).for_each(|(x, p)| *x = p[0] << 4 | p[1]);
                    storage.insert(H256(b), SeparateTriePreImage::Direct(a.storage.mpt()));
                }
            });
            BlockTraceTriePreImages::Separate(SeparateTriePreImages {
                state: SeparateTriePreImage::Direct(t.mpt()),
                storage: SeparateStorageTriesPreImage::MultipleTries(storage),
            })
        } else {
            let mut v = vec![];
            let mut rng = c.rng.clone();
            wire(&t, &mut || rng.gen_bool(0.3), &mut v);
            BlockTraceTriePreImages::Combined(CombinedPreImages { compact: [vec![c.below(2) as u8], v.concat()].concat() })
        };
        BlockTrace {
            trie_pre_images: pre,
            code_db,
            txn_info: self
                .txs
                .iter()
                .map(|t| TxnInfo {
                    traces: t.traces.clone(),
                    meta: TxnMeta {
                        byte_code: t.raw.clone(),
                        new_receipt_trie_node_byte: if t.tx.ty == 0 { t.receipt.clone() } else { rlp_str(&t.receipt) },
                        gas_used: t.gas,
                    },
                })
                .collect(),
        }
    }
    pub fn describe(&self) -> String {
        let mut s = format!("coinbase {:?} withdrawals {:?}\n", self.env.coinbase, self.withdrawals);
        for (a, x) in &self.start {
            s += &format!("{a:?}: nonce {} bal {} code {} st {:?}\n", x.nonce, x.balance, hex::encode(&*x.code), x.storage);
        }
        for t in &self.txs {
            s += &format!("tx ok {} gas {} {:?}\n traces {:?}\n", t.ok, t.gas, t.tx, t.traces);
        }
        s
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Form {
    pub direct: bool,
    pub pruned: bool,
    pub near: bool,
}
#[allow(unused)]
use refevm as _;
