//! Worlds and transactions built around one situation that random programs
//! rarely reach.
use std::sync::Arc;

use ethereum_types::{Address, U256};
use vh_core::*;

use crate::block::*;
use crate::gen::*;
use crate::refevm::*;

pub const NAMES: [&str; 16] = [
    "create2 collision",
    "stale return data before an empty create",
    "jump far into a long initcode",
    "create2, destroy, create again",
    "destroy variants",
    "reverted storage and transient writes",
    "call chain",
    "refused deployments",
    "gas cut at a step",
    "late transaction index",
    "return data windows",
    "refund clearing",
    "environment",
    "arithmetic on edge operands",
    "every instruction and length",
    "stack at its limits",
];

pub struct Scene {
    pub world: World,
    pub env: Env,
    /// To, data, value, gas; sent by key 0.. in turn.
    pub calls: Vec<(Option<Address>, Vec<u8>, U256, u64)>,
    pub names: Vec<&'static str>,
}

fn acct(code: Vec<u8>) -> Acct {
    Acct { nonce: 1, balance: 1000.into(), code: Arc::new(code), ..Default::default() }
}
/// [gas?, out..] CALL with no data; result left on the stack.
fn call(a: &mut Asm, kind: u8, to: U256, value: u64, gas: u64) {
    a.push(0).push(0).push(0).push(0);
    if kind == 0xf1 || kind == 0xf2 {
        a.push(value);
    }
    a.push(to).push(gas).op(kind);
}
fn store(a: &mut Asm, k: u64) {
    a.push(k).op(0x55);
}
/// Records the account-visible facts of the address on top of the stack.
fn probe(a: &mut Asm, x: U256, k: u64) {
    for (i, op) in [0x31u8, 0x3b, 0x3f].into_iter().enumerate() {
        a.push(x).op(op);
        store(a, k + i as u64);
    }
}
/// CREATE (or CREATE2) of `init`; leaves the address on the stack.
fn create(a: &mut Asm, init: &[u8], value: u64, salt: Option<u64>) {
    a.store_bytes(0, init.to_vec());
    if let Some(s) = salt {
        a.push(s);
    }
    a.push(init.len()).push(0).push(value).op(if salt.is_some() { 0xf5 } else { 0xf0 });
}
/// Initcode that deploys `rt` after running `pre`.
fn deploy(pre: &dyn Fn(&mut Asm), rt: &[u8]) -> Vec<u8> {
    let mut a = Asm::default();
    pre(&mut a);
    a.store_bytes(0, rt.to_vec());
    a.push(rt.len()).push(0).op(0xf3);
    a.finish()
}
fn done(mut a: Asm) -> Vec<u8> {
    a.op(0x00);
    a.finish()
}
fn suicide(to: Address) -> Vec<u8> {
    let mut a = Asm::default();
    a.addr(to).op(0xff);
    a.finish()
}

pub fn scene(c: &mut Case, which: usize) -> Scene {
    let p = pool();
    let mut w = World::new();
    w.insert(beacon_address(), Acct { nonce: 1, code: Arc::new(beacon_code()), ..Default::default() });
    for k in keys() {
        w.insert(k.addr, Acct { nonce: c.below(3) as u64, balance: U256::exp10(20), ..Default::default() });
    }
    let env = gen_env(c);
    let (x, y, z) = (contract(0), contract(1), contract(2));
    let mut calls = vec![];
    let big = 3_000_000;
    let go = |to: Address| (Some(to), vec![], U256::zero(), big);
    match which {
        0 => {
            let salt = c.below(3) as u64;
            let ben = if c.chance(0.3) { x } else { p.any(c) };
            let rt = if c.chance(0.7) { suicide(ben) } else { vec![0x30, 0xff] };
            let st = c.below(2) as u64;
            let init = deploy(
                &|a| {
                    a.push(st).push(1).op(0x55);
                },
                &rt,
            );
            let t = create2_address(x, salt.into(), &init);
            let mut old = Acct { nonce: c.below(2) as u64, balance: U256::from(c.below(3)), ..Default::default() };
            if c.chance(0.8) {
                old.code = Arc::new(rt.clone());
                old.nonce = 1;
            } else if old.nonce == 0 && old.balance.is_zero() {
                old.balance = 5.into();
            }
            if !old.code.is_empty() && c.chance(0.5) {
                old.storage.insert(1.into(), 7.into());
            }
            w.insert(t, old);
            let mut a = Asm::default();
            if c.chance(0.3) {
                call(&mut a, 0xf1, u_of(t), 1, 200000);
                store(&mut a, 9);
            }
            create(&mut a, &init, c.below(3) as u64, Some(salt));
            store(&mut a, 0);
            a.op(0x3d);
            store(&mut a, 1);
            call(&mut a, 0xf1, u_of(t), c.below(2) as u64, 200000);
            store(&mut a, 2);
            probe(&mut a, u_of(t), 3);
            w.insert(x, acct(done(a)));
            calls.push(go(x));
            if c.chance(0.5) {
                calls.push(go(t));
                calls.push(go(x));
            }
        }
        1 => {
            let first = pick(c, &[0xefu8, 0xee, 0x00, 0xef]);
            let n = c.below(3);
            let mut b = Asm::default();
            b.push(first).push(0).op(0x53).push(n).push(0).op(if c.chance(0.7) { 0xf3 } else { 0xfd });
            w.insert(y, acct(b.finish()));
            let mut a = Asm::default();
            call(&mut a, pick(c, &[0xf1u8, 0xf4, 0xfa]), u_of(y), 0, 100000);
            store(&mut a, 0);
            let init = match c.below(5) {
                0 => vec![],
                1 => vec![0x00],
                2 => vec![0x5f, 0x5f, 0xf3],
                3 => vec![0x5f, 0x5f, 0xfd],
                _ => suicide(z),
            };
            let salt = if c.chance(0.5) { Some(0) } else { None };
            create(&mut a, &init, 0, salt);
            a.op(0x80);
            store(&mut a, 1);
            a.op(0x80).op(0x3f);
            store(&mut a, 2);
            a.op(0x3b);
            store(&mut a, 3);
            a.op(0x3d);
            store(&mut a, 4);
            w.insert(x, acct(done(a)));
            calls.push(go(x));
        }
        2 => {
            let max = 2 * 24576;
            let n = match c.below(4) {
                0 => max,
                1 => max + c.below(2),
                2 => 24570 + c.below(16),
                _ => 24577 + c.below(24000),
            };
            let d = if c.chance(0.3) { n - 3 - c.below(8) } else { 24570 + c.below(16) }.min(n - 3);
            let mut code = vec![0x61, (d >> 8) as u8, d as u8, 0x56];
            code.resize(n, 0x00);
            if c.chance(0.8) {
                code[d] = 0x5b;
            }
            code[d + 1] = 0x58;
            code[d + 2] = if c.chance(0.5) { 0xff } else { 0x00 };
            if c.chance(0.2) {
                code[d - 1] = 0x60;
            }
            if c.chance(0.5) {
                calls.push((None, code, 0.into(), 6_000_000));
            } else {
                w.insert(y, acct(code[..n.min(65535)].to_vec()));
                let mut a = Asm::default();
                a.push(n).push(0).push(0).addr(y).op(0x3c);
                a.push(n).push(0).push(0).op(0xf0);
                store(&mut a, 0);
                w.insert(x, acct(done(a)));
                calls.push(go(x));
            }
        }
        3 => {
            let v = 1 + c.below(3) as u64;
            // runtime: no value: add to the slot; else destroy
            let mut rt = Asm::default();
            rt.op(0x34);
            let at = rt.code.len() + 4 + 12;
            rt.code.extend([0x61, 0, at as u8, 0x57]);
            rt.push(1).op(0x54).push(v).op(0x01).push(1).op(0x55).op(0x00);
            rt.code.resize(at, 0x5b);
            rt.op(0x5b).addr(if c.chance(0.3) { x } else { ghost(0) }).op(0xff);
            let rt = rt.finish();
            let keep = c.chance(0.5);
            let init = deploy(
                &|a| {
                    if keep {
                        a.push(2).op(0x54).push(1).op(0x01).push(2).op(0x55);
                    }
                },
                &rt,
            );
            let t = create2_address(x, 0.into(), &init);
            let mut mk = Asm::default();
            for r in 0..1 + c.below(3) as u64 {
                create(&mut mk, &init, c.below(2) as u64, Some(0));
                store(&mut mk, 10 * r);
                for j in 0..c.below(4) as u64 {
                    call(&mut mk, 0xf1, u_of(t), c.chance(0.4) as u64, 100000);
                    store(&mut mk, 10 * r + 1 + j);
                }
                probe(&mut mk, u_of(t), 10 * r + 5);
            }
            w.insert(x, acct(done(mk)));
            for _ in 0..1 + c.below(3) {
                calls.push(go(x));
                if c.chance(0.4) {
                    calls.push((Some(t), vec![], U256::from(c.below(2)), big));
                }
            }
        }
        4 => {
            // one or two destroyers, called several times and in reverted frames
            let rev = c.chance(0.4);
            let ben = pick(c, &[x, y, z, ghost(0), ghost(1), keys()[1].addr, Address::from_low_u64_be(3)]);
            w.insert(y, acct(suicide(ben)));
            w.insert(z, acct(if c.chance(0.5) { vec![0x30, 0xff] } else { suicide(y) }));
            let mut q = Asm::default();
            for i in 0..1 + c.below(3) as u64 {
                let t = pick(c, &[y, z]);
                call(&mut q, pick(c, &[0xf1u8, 0xf1, 0xf4, 0xf2, 0xfa]), u_of(t), c.below(2) as u64, 100000);
                store(&mut q, i);
            }
            if rev {
                q.push(0).push(0).op(0xfd);
            }
            w.insert(contract(3), acct(done(q)));
            let mut a = Asm::default();
            for i in 0..2 {
                call(&mut a, 0xf1, u_of(contract(3)), i, 500000);
                store(&mut a, i);
                probe(&mut a, u_of(ben), 10 + 10 * i);
                probe(&mut a, u_of(y), 50 + 10 * i);
            }
            w.insert(x, acct(done(a)));
            calls.push(go(x));
            calls.push((Some(y), vec![], U256::from(c.below(3)), big));
        }
        5 => {
            // y writes its slots as told, then reverts or not; x calls it repeatedly
            let mut b = Asm::default();
            for _ in 0..1 + c.below(4) {
                let (k, v) = (c.below(2) as u64, c.below(3) as u64);
                if c.chance(0.6) {
                    b.push(v).push(k).op(0x55);
                } else {
                    b.push(v).push(k).op(0x5d);
                }
            }
            for k in 0..2u64 {
                b.push(k).op(0x5c).push(10 + k).op(0x55);
            }
            // revert when the low bit of the call data word is set
            b.push(0).op(0x35).push(1).op(0x16);
            let at = b.code.len() + 4 + 1;
            b.code.extend([0x61, (at >> 8) as u8, at as u8, 0x57]);
            b.op(0x00).op(0x5b).push(0).push(0).op(0xfd);
            let mut acc = acct(b.finish());
            for k in 0..2u64 {
                if c.chance(0.5) {
                    acc.storage.insert(k.into(), U256::from(1 + c.below(2)));
                }
            }
            w.insert(y, acc);
            let mut a = Asm::default();
            for i in 0..2 + c.below(3) as u64 {
                a.push(c.below(2)).push(0).op(0x52);
                a.push(0).push(0).push(32).push(0).push(0).addr(y).push(300000).op(0xf1);
                store(&mut a, i);
                a.op(0x5a);
                store(&mut a, 20 + i);
            }
            w.insert(x, acct(done(a)));
            for _ in 0..1 + c.below(2) {
                calls.push(go(x));
            }
        }
        6 => {
            // each contract calls the next; the last looks around
            let kinds: Vec<u8> = (0..4).map(|_| pick(c, &[0xf1u8, 0xf2, 0xf4, 0xfa])).collect();
            for i in 0..4u64 {
                let mut a = Asm::default();
                for (j, op) in [0x30u8, 0x33, 0x34, 0x32, 0x47, 0x38, 0x36].into_iter().enumerate() {
                    a.op(op).push(32 * j).op(0x52);
                }
                call(&mut a, kinds[i as usize], u_of(contract((i + 1) % 5)), c.below(3) as u64, u64::MAX);
                a.push(32 * 7).op(0x52);
                a.op(0x3d).push(32 * 8).op(0x52);
                a.push(64).push(32 * 7).op(0xa0);
                let copy = c.chance(0.5);
                if copy {
                    a.op(0x3d).push(0).push(300).op(0x3e);
                }
                a.push(200 + c.below(150)).push(0).op(0xf3);
                w.insert(contract(i), acct(a.finish()));
            }
            let mut a = Asm::default();
            for op in [0x30u8, 0x33, 0x34, 0x32] {
                a.op(op).push(0).op(0x52).push(32).push(0).op(0xa0);
            }
            if c.chance(0.5) {
                a.push(1).push(2).op(0x55);
            }
            w.insert(contract(4), acct(done(a)));
            calls.push((Some(x), vec![], U256::from(c.below(3)), big));
        }
        7 => {
            let mut a = Asm::default();
            for i in 0..3u64 {
                let n = pick(c, &[24575usize, 24576, 24577, 0, 1]);
                let mut k = Asm::default();
                if c.chance(0.3) {
                    k.push(0xef).push(0).op(0x53);
                }
                if c.chance(0.3) {
                    k.push(5).push(1).op(0x55);
                }
                k.push(n).push(0).op(if c.chance(0.8) { 0xf3 } else { 0xfd });
                let salt = if c.chance(0.5) { Some(i) } else { None };
                create(&mut a, &k.finish(), i, salt);
                a.op(0x80);
                store(&mut a, 4 * i);
                a.op(0x3b);
                store(&mut a, 4 * i + 1);
                a.op(0x3d);
                store(&mut a, 4 * i + 2);
                a.op(0x5a);
                store(&mut a, 4 * i + 3);
            }
            w.insert(x, acct(done(a)));
            let g = pick(c, &[big, 200_000, 4_000_000, 6_000_000, 16_000_000]);
            calls.push((Some(x), vec![], 0.into(), g));
        }
        10 => {
            // return data of all lengths, read at all offsets, inside and out of bounds
            let n = c.below(70);
            let mut b = Asm::default();
            b.push(U256::MAX - 5).push(0).op(0x52).push(word(c)).push(32).op(0x52);
            b.push(n).push(c.below(3)).op(pick(c, &[0xf3u8, 0xfd]));
            w.insert(y, acct(b.finish()));
            let mut a = Asm::default();
            for i in 0..3u64 {
                let (ro, rl) = (c.below(40), c.below(80));
                a.push(rl).push(ro).push(0).push(0);
                let k = pick(c, &[0xf1u8, 0xfa]);
                if k == 0xf1 {
                    a.push(0);
                }
                a.addr(y).push(100000).op(k).op(0x50);
                let off = c.below(n + 1);
                let len = if c.chance(0.9) { c.below(n - off + 1) } else { n - off + 1 };
                a.push(len).push(off).push(100 * i + 100).op(0x3e);
                a.op(0x3d);
                store(&mut a, i);
            }
            a.push(500).push(0).op(0xa0);
            w.insert(x, acct(done(a)));
            calls.push(go(x));
        }
        11 => {
            let mut a = Asm::default();
            let mut acc = Acct { nonce: 1, ..Default::default() };
            for i in 0..2 + c.below(8) as u64 {
                acc.storage.insert(i.into(), (i + 1).into());
                for _ in 0..1 + c.below(3) {
                    a.push(pick(c, &[0, 0, i + 1, 99])).push(i).op(0x55);
                }
            }
            acc.code = Arc::new(done(a));
            w.insert(x, acc);
            calls.push(go(x));
            calls.push(go(x));
        }
        12 => {
            // everything a program can ask about its environment, logged
            let mut a = Asm::default();
            let mut at = 0usize;
            let mut put = |a: &mut Asm| {
                a.push(at).op(0x52);
                at += 32;
            };
            let ops = [0x30u8, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59, 0x5a];
            for o in ops {
                a.op(o);
                put(&mut a);
            }
            let n = U256::from(env.number);
            for b in [0u64, 1, 2, 100, 255, 256, 257, 258] {
                a.push(n.saturating_sub(b.into())).op(0x40);
                put(&mut a);
            }
            for b in [n + 1, U256::MAX, n + (U256::one() << 64), n + (U256::one() << 255), word(c)] {
                a.push(b).op(0x40);
                put(&mut a);
            }
            for i in [U256::zero(), U256::one(), 2.into(), 6.into(), word(c)] {
                a.push(i).op(0x49);
                put(&mut a);
                a.push(i).op(0x35);
                put(&mut a);
            }
            for _ in 0..2 {
                let t = p.any(c);
                for o in [0x31u8, 0x3b, 0x3f] {
                    a.addr(t).op(o);
                    put(&mut a);
                }
            }
            a.push(at).push(0).op(0xa0);
            let own = done(a);
            w.insert(y, acct(own));
            let mut b = Asm::default();
            for k in [0xf1u8, 0xf4, 0xfa, 0xf2] {
                call(&mut b, k, u_of(y), 1, 500_000);
            }
            w.insert(x, acct(done(b)));
            for t in [x, y] {
                let d = (0..c.below(70)).map(|_| c.rng.gen()).collect();
                calls.push((Some(t), d, U256::from(c.below(3)), big));
            }
        }
        13 => {
            let mut a = Asm::default();
            let (mut at, k) = (0usize, 60);
            for _ in 0..k {
                let o = pick(c, &[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d]);
                let n = match o {
                    8 | 9 => 3,
                    0x15 | 0x19 => 1,
                    _ => 2,
                };
                let v: Vec<U256> = (0..n).map(|_| word(c)).collect();
                // operands that are related to each other
                let v = match c.below(5) {
                    0 => vec![v[0]; n],
                    1 => v.iter().enumerate().map(|(i, _)| v[0].overflowing_add(i.into()).0).collect(),
                    2 if n > 1 => std::iter::once(v[1].saturating_mul(v[n - 1])).chain(v[1..].iter().copied()).collect(),
                    _ => v,
                };
                for x in v.iter().rev() {
                    a.push(*x);
                }
                a.op(o);
                a.push(at).op(0x52);
                at += 32;
            }
            a.push(at).push(0).op(0xa0);
            w.insert(x, acct(done(a)));
            calls.push(go(x));
        }
        14 => {
            // x: instructions; y: copies of every length; z: field arithmetic
            let mut a = Asm::default();
            a.op(0x5f).op(0x50);
            for n in 1..=32u8 {
                a.op(0x5f + n);
                for _ in 0..n {
                    a.op(c.rng.gen());
                }
                if n % 2 == 0 {
                    a.op(0x80 + c.below(16).min(n as usize - 1) as u8);
                    a.op(0x90 + c.below(16).min(n as usize - 1) as u8);
                }
            }
            for o in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d] {
                for big in [false, true] {
                    for _ in 0..3 {
                        let v = if big { word(c) } else { U256::from(c.below(300)) };
                        a.push(v);
                    }
                    a.op(o);
                    for _ in 0..if o == 8 || o == 9 { 1 } else if o == 0x15 || o == 0x19 { 3 } else { 2 } {
                        a.op(0x50);
                    }
                }
            }
            for o in [0x30u8, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59, 0x5a] {
                a.op(o).op(0x50);
            }
            for t in [0u64, 1, 0x1_0000_0000] {
                // JUMPI taken or not
                a.push(if t == 0 { 0u64.into() } else { U256::from(t) });
                let at = a.code.len() + 4;
                a.op(0x61).op((at >> 8) as u8).op(at as u8).op(0x57).op(0x5b);
            }
            let at = a.code.len() + 4;
            a.op(0x61).op((at >> 8) as u8).op(at as u8).op(0x56).op(0x5b);
            a.push(77).push(3).op(0x53).push(77).push(64).op(0x52).push(65).op(0x51);
            a.push(200).push(5).op(0x20);
            for k in 0..4u8 {
                for _ in 0..k {
                    a.push(c.below(9));
                }
                a.push(33).push(k as u64).op(0xa0 + k);
            }
            w.insert(x, acct(done(a)));
            let mut a = Asm::default();
            for n in 1..=32u64 {
                let (f, t) = (c.below(40), c.below(60));
                a.push(n).push(f).push(t).op(if n % 3 == 0 { 0x39 } else { 0x37 });
            }
            a.push(33).push(2).push(9).op(0x5e);
            w.insert(y, acct(done(a)));
            let mut a = Asm::default();
            for n in [6u64, 7, 8] {
                let mut d = precompile_input(c, n as usize);
                if n == 8 {
                    d.truncate(192);
                }
                let l = d.len();
                a.store_bytes(0, d);
                a.push(64).push(0).push(l).push(0).push(0).push(n).push(500_000).op(0xf1);
            }
            w.insert(z, acct(done(a)));
            let d = (0..60).map(|_| c.rng.gen()).collect();
            calls.push(go(x));
            calls.push((Some(y), d, U256::one(), big));
            if c.chance(0.5) {
                calls.push(go(z));
            }
        }
        15 => {
            // contracts that run one instruction with a stack that is nearly
            // full, or nearly too short for it
            let mut m = Asm::default();
            for i in 0..6u64 {
                let (ops, need): (&[u8], usize) = pick(
                    c,
                    &[
                        (&[0x5f, 0x60, 0x61, 0x7f, 0x58, 0x59, 0x5a, 0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a], 0),
                        (&[0x15, 0x19, 0x31, 0x35, 0x3b, 0x3f, 0x40, 0x49, 0x50, 0x51, 0x54, 0x5c], 1),
                        (&[1, 2, 3, 4, 5, 6, 7, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d, 0x20, 0x52, 0x53, 0x55, 0x5d, 0xa0, 0x57], 2),
                        (&[8, 9, 0x37, 0x39, 0x5e, 0xf0, 0xa1], 3),
                        (&[0x3c, 0xf5], 4),
                        (&[0xf4, 0xfa, 0xa4], 6),
                        (&[0xf1, 0xf2], 7),
                    ],
                );
                let mut o = ops[c.below(ops.len())];
                let mut need = need;
                if c.chance(0.4) {
                    let n = c.below(16);
                    let dup = c.chance(0.6);
                    o = if dup { 0x80 } else { 0x90 } + n as u8;
                    need = n + if dup { 1 } else { 2 };
                }
                let have = if c.chance(0.7) { 1022 + c.below(3) } else { (need + c.below(2)).saturating_sub(1) };
                let mut a = Asm::default();
                for k in 0..have {
                    if k + 20 > have {
                        a.push(c.below(3));
                    } else {
                        a.op(0x5f);
                    }
                }
                a.op(o);
                if (0x60..0x80).contains(&o) {
                    for _ in 0..o - 0x5f {
                        a.op(1);
                    }
                }
                for _ in 0..(have + 1).saturating_sub(need).min(3) {
                    a.op(0x50);
                }
                a.push(i + 7).op(0x5f).op(0x55);
                let t = contract(1 + i);
                w.insert(t, acct(done(a)));
                call(&mut m, 0xf1, u_of(t), 0, 400_000);
                store(&mut m, i);
                m.op(0x3d);
                store(&mut m, 50 + i);
            }
            w.insert(x, acct(done(m)));
            calls.push(go(x));
        }
        _ => {
            let st = Style { fault: 0.0, precompiles: false };
            for (a, x) in gen_world(c, &p, st) {
                w.insert(a, x);
            }
            for _ in 0..2 {
                let t = pick(c, &p.contracts);
                let d = (0..c.below(70)).map(|_| c.rng.gen()).collect();
                calls.push((Some(t), d, U256::from(c.below(2)), big));
            }
        }
    }
    Scene { world: w, env, calls, names: vec![NAMES[which]] }
}

fn versioned(c: &mut Case) -> ethereum_types::H256 {
    let mut h: [u8; 32] = c.rng.gen();
    h[0] = 1;
    ethereum_types::H256(h)
}

/// The block of a scene. `late`: this many transactions came before.
pub fn play(c: &mut Case, which: usize) -> (Vec<Batch>, Stats) {
    let s = scene(c, which);
    let mut txs = vec![];
    let mut nonces: Vec<u64> = keys().iter().map(|k| s.world.get(&k.addr).map_or(0, |a| a.nonce)).collect();
    for (i, (to, data, value, gas)) in s.calls.into_iter().enumerate() {
        let k = i % 2;
        let max_fee = s.env.base_fee + 1;
        let mut tx = Tx {
            ty: if c.chance(0.5) { 0 } else { 2 },
            sender: keys()[k].addr,
            nonce: nonces[k],
            max_fee,
            max_prio: 1.into(),
            gas,
            to,
            value,
            data,
            access_list: vec![],
            blob_hashes: vec![],
            max_blob_fee: 0.into(),
        };
        if which == 12 && tx.ty == 2 && c.chance(0.5) {
            tx.ty = 3;
            tx.blob_hashes = (0..1 + c.below(3)).map(|_| versioned(c)).collect();
            tx.max_blob_fee = s.env.blob_base_fee() + c.below(2);
        }
        if tx.ty == 0 {
            tx.max_prio = max_fee;
        }
        tx.gas = tx.gas.max(intrinsic(&tx));
        if which == 8 {
            // stop right at, before, or after one of the steps
            let mut st = Stats { gas_steps: Some(vec![]), ..Default::default() };
            let mut w = s.world.clone();
            let _ = apply_tx(&mut w, &s.env, &tx, 30_000_000, &mut st, &|_| None);
            let v = st.gas_steps.unwrap();
            if !v.is_empty() {
                let used = tx.gas - intrinsic(&tx) - v[c.below(v.len())];
                tx.gas = intrinsic(&tx) + (used + c.below(3) as u64).saturating_sub(1);
            }
        }
        nonces[k] += 1;
        txs.push(TxIn { raw: encode_tx(&tx, &keys()[k], s.env.chain_id, c.chance(0.7)), tx });
    }
    let mut stats = Stats { trace: std::env::var_os("VH_TRACE").is_some(), ..Default::default() };
    for n in s.names {
        stats.ev(n);
    }
    let mut w = s.world;
    let before = if which == 9 { late(c) } else { Prefix::default() };
    let out = run_block_after(before, &mut w, &s.env, vec![txs], vec![], &mut stats, &|_| None);
    (out, stats)
}

/// Earlier transactions of the block (whose effect is the world it starts from).
pub fn late(c: &mut Case) -> Prefix {
    let k = pick(c, &[1usize, 2, 127, 126, 128, 129, 255, 256, 257, 15, 16]);
    let mut gas = 0;
    let (mut txs, mut rcs) = (vec![], vec![]);
    for i in 0..k {
        let mut logs = vec![];
        for _ in 0..c.below(3) {
            logs.push(Log {
                addr: contract(c.below(5) as u64),
                topics: (0..c.below(5)).map(|_| ethereum_types::H256(b32(word(c)))).collect(),
                data: (0..c.below(70)).map(|_| c.rng.gen()).collect(),
            });
        }
        gas += 21000 + c.below(9) as u64;
        let ty = c.below(4) as u8;
        rcs.push(encode_receipt(&Receipt { success: c.chance(0.9), gas_used: 21000, logs }, gas, ty));
        let key = &keys()[i % 3];
        let tx = Tx {
            ty: if ty == 3 { 2 } else { ty },
            sender: key.addr,
            nonce: i as u64,
            max_fee: word(c),
            max_prio: 0.into(),
            gas: 21000,
            to: Some(ghost(1)),
            value: word(c),
            data: (0..c.below(100)).map(|_| c.rng.gen()).collect(),
            access_list: vec![],
            blob_hashes: vec![],
            max_blob_fee: 0.into(),
        };
        txs.push(encode_tx(&tx, key, 1, true));
    }
    Prefix { txs, receipts: rcs, gas }
}
