//! Generators: contracts, worlds, blocks.
use std::sync::{Arc, OnceLock};

use ethereum_types::{Address, H256, U256};
use vh_core::*;

use crate::block::*;
use crate::refcrypto::{self as rc, Key};
use crate::refevm::*;

pub fn keys() -> &'static Vec<Key> {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| (0..5).map(Key::new).collect())
}

pub fn pick<T: Clone>(c: &mut Case, v: &[T]) -> T {
    v[c.below(v.len())].clone()
}

pub fn word(c: &mut Case) -> U256 {
    match c.below(12) {
        0 => U256::zero(),
        1 => U256::one(),
        2 => U256::MAX - c.below(3),
        3 => (U256::one() << 255) + c.below(2),
        4 => (U256::one() << 255) - 1 - c.below(2),
        5 => (U256::one() << c.below(256)) - c.below(2),
        6 => c.below(256).into(),
        7 => c.below(40).into(),
        8 => U256::from(c.rng.gen::<u128>()),
        9 => c.rng.gen::<u64>().into(),
        10 => {
            let k = 8 * c.below(32);
            U256::from(0xffu64) << k
        }
        _ => U256(c.rng.gen()),
    }
}

/// Bytecode under construction; `tail` data is appended at the end, and its
/// offsets patched in.
#[derive(Default)]
pub struct Asm {
    pub code: Vec<u8>,
    tail: Vec<(usize, Vec<u8>)>,
}
impl Asm {
    pub fn op(&mut self, o: u8) -> &mut Self {
        self.code.push(o);
        self
    }
    pub fn push(&mut self, x: impl Into<U256>) -> &mut Self {
        let x = x.into();
        if x.is_zero() {
            return self.op(0x5f);
        }
        let n = (x.bits() + 7) / 8;
        self.code.push(0x5f + n as u8);
        self.code.extend(&b32(x)[32 - n..]);
        self
    }
    pub fn addr(&mut self, a: Address) -> &mut Self {
        self.push(u_of(a))
    }
    /// PUSH2 of where `data` will be.
    pub fn push_data(&mut self, data: Vec<u8>) -> &mut Self {
        self.code.push(0x61);
        self.tail.push((self.code.len(), data));
        self.code.extend([0, 0]);
        self
    }
    /// Copies `data` to memory at `at`.
    pub fn store_bytes(&mut self, at: usize, data: Vec<u8>) -> &mut Self {
        let n = data.len();
        self.push(n);
        self.push_data(data);
        self.push(at).op(0x39)
    }
    pub fn finish(mut self) -> Vec<u8> {
        for (at, d) in std::mem::take(&mut self.tail) {
            let off = self.code.len() as u16;
            self.code[at..at + 2].copy_from_slice(&off.to_be_bytes());
            self.code.extend(d);
        }
        self.code
    }
}

pub struct Pool {
    pub contracts: Vec<Address>,
    pub eoas: Vec<Address>,
    pub ghosts: Vec<Address>,
}
impl Pool {
    pub fn any(&self, c: &mut Case) -> Address {
        match c.below(12) {
            0..=5 => pick(c, &self.contracts),
            6 | 7 => pick(c, &self.eoas),
            8 => Address::from_low_u64_be(1 + c.below(11) as u64),
            9 => beacon_address(),
            _ => pick(c, &self.ghosts),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Style {
    /// Chance of a deliberate fault per statement.
    pub fault: f64,
    pub precompiles: bool,
}

fn mem_at(c: &mut Case) -> U256 {
    match c.below(20) {
        0..=15 => c.below(300).into(),
        16 => (32 * c.below(30)).into(),
        17 => (1000 + c.below(9000)).into(),
        18 => U256::from(c.below(70000)),
        _ => {
            if c.chance(0.3) {
                pick(c, &[U256::from(1u64 << 32), U256::from((1u64 << 32) - 1), U256::MAX, U256::one() << 64])
            } else {
                0.into()
            }
        }
    }
}
fn mem_len(c: &mut Case) -> U256 {
    match c.below(24) {
        0..=7 => c.below(70).into(),
        8..=14 => pick(c, &[0usize, 1, 31, 32, 33, 64, 96, 135, 136, 137]).into(),
        15..=20 => c.below(300).into(),
        21 => 0.into(),
        22 => c.below(3000).into(),
        _ => {
            if c.chance(0.15) {
                word(c)
            } else {
                32.into()
            }
        }
    }
}
pub fn slot(c: &mut Case) -> U256 {
    match c.below(10) {
        0..=7 => c.below(5).into(),
        8 => word(c),
        _ => U256::MAX,
    }
}
fn slot_value(c: &mut Case) -> U256 {
    match c.below(8) {
        0..=2 => 0.into(),
        3..=5 => (1 + c.below(3)).into(),
        _ => word(c),
    }
}
fn gas_arg(c: &mut Case) -> U256 {
    match c.below(10) {
        0 => 0.into(),
        1 => c.below(3000).into(),
        2 => c.below(30000).into(),
        3 => 2300.into(),
        4 => U256::MAX,
        5 => word(c),
        _ => (20000 + c.below(100000)).into(),
    }
}
fn small_value(c: &mut Case) -> U256 {
    match c.below(6) {
        0..=2 => 0.into(),
        3 => 1.into(),
        4 => c.below(1000).into(),
        _ => word(c),
    }
}

/// Consumes the top of the stack in an observable way.
fn sink(a: &mut Asm, c: &mut Case) {
    match c.below(8) {
        0..=3 => {
            let s = slot(c);
            a.push(s).op(0x55);
        }
        4 => {
            let m = c.below(300);
            a.push(m).op(0x52);
        }
        5 => {
            a.push(slot(c)).op(0x5d);
        }
        6 => {
            // as a log topic
            a.push(c.below(40)).push(c.below(100)).op(0xa1);
        }
        _ => {
            a.op(0x50);
        }
    }
}

pub fn statement(a: &mut Asm, c: &mut Case, p: &Pool, st: Style, depth: usize) {
    if c.chance(st.fault) {
        match c.below(8) {
            0 => {
                a.op(0xfe);
            }
            1 => {
                a.push(word(c)).op(0x56);
            }
            2 => {
                a.op(0x50).op(0x50).op(0x50).op(0x50);
            }
            3 => {
                a.op(c.rng.gen());
            }
            4 => {
                // RETURNDATACOPY that may be out of bounds
                a.push(c.below(80)).push(c.below(80)).push(c.below(80)).op(0x3e);
            }
            5 => {
                let n = c.below(16);
                a.op(0x80 + n as u8);
            }
            6 => {
                let n = c.below(16);
                a.op(0x90 + n as u8);
            }
            _ => {
                a.push(word(c)).push(word(c)).op(pick(c, &[0x20, 0x51, 0x52, 0xf3, 0xfd, 0xa0]));
            }
        }
        return;
    }
    match c.below(32) {
        0..=5 => {
            // arithmetic
            for _ in 0..1 + c.below(3) {
                match c.below(10) {
                    0 => {
                        a.push(word(c)).push(word(c)).push(word(c)).op(pick(c, &[0x08, 0x09]));
                    }
                    1 => {
                        a.push(word(c)).op(pick(c, &[0x15, 0x19]));
                    }
                    2 => {
                        let sh = if c.chance(0.7) { c.below(258).into() } else { word(c) };
                        a.push(word(c)).push(sh).op(pick(c, &[0x1b, 0x1c, 0x1d, 0x1a, 0x0b]));
                    }
                    3 => {
                        let e = if c.chance(0.8) { c.below(300).into() } else { word(c) };
                        a.push(e).push(word(c)).op(0x0a);
                    }
                    4 => {
                        let x = word(c);
                        a.push(x).push(x).op(pick(c, &[0x10, 0x11, 0x12, 0x13, 0x14, 0x03, 0x18, 0x04, 0x05]));
                    }
                    _ => {
                        let o = pick(c, &[1, 2, 3, 4, 5, 6, 7, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x0b]);
                        a.push(word(c)).push(word(c)).op(o);
                    }
                }
                sink(a, c);
            }
        }
        6..=9 => {
            for _ in 0..1 + c.below(3) {
                if c.chance(0.3) {
                    a.push(slot(c)).op(0x54);
                    sink(a, c);
                } else {
                    a.push(slot_value(c)).push(slot(c)).op(0x55);
                }
            }
        }
        10 => {
            a.push(slot_value(c)).push(slot(c)).op(0x5d);
            a.push(slot(c)).op(0x5c);
            sink(a, c);
        }
        11..=13 => {
            match c.below(4) {
                0 => {
                    a.push(word(c)).push(mem_at(c)).op(pick(c, &[0x52, 0x53]));
                }
                1 => {
                    a.push(mem_at(c)).op(0x51);
                    sink(a, c);
                }
                2 => {
                    a.push(mem_len(c)).push(mem_at(c)).push(mem_at(c)).op(0x5e);
                }
                _ => {
                    a.push(mem_len(c)).push(mem_at(c)).op(0x20);
                    sink(a, c);
                }
            }
        }
        14 | 15 => {
            let src = if c.chance(0.9) { c.below(200).into() } else { word(c) };
            match c.below(3) {
                0 => {
                    a.push(mem_len(c)).push(src).push(mem_at(c)).op(pick(c, &[0x37, 0x39]));
                }
                1 => {
                    a.push(mem_len(c)).push(src).push(mem_at(c)).addr(p.any(c)).op(0x3c);
                }
                _ => {
                    a.push(src).op(0x35);
                    sink(a, c);
                }
            }
        }
        16 | 17 => {
            match c.below(4) {
                0 => {
                    a.addr(p.any(c)).op(pick(c, &[0x31, 0x3b, 0x3f]));
                }
                1 => {
                    // BLOCKHASH around the window
                    a.push(c.below(270)).op(0x43).op(0x03).op(0x40);
                }
                2 => {
                    a.push(if c.chance(0.8) { c.below(7).into() } else { word(c) }).op(0x49);
                }
                _ => {
                    a.op(pick(
                        c,
                        &[
                            0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48,
                            0x4a, 0x58, 0x59, 0x5a,
                        ],
                    ));
                }
            }
            sink(a, c);
        }
        18 | 19 => {
            // forward jump over bytes that look like code
            let mut junk: Vec<u8> = (0..c.below(40)).map(|_| pick(c, &[0x5b, 0x60, 0x7f, 0x00, 0x56, 0x61, 0x6a, 0x5b])).collect();
            if c.chance(0.6) {
                // so that the target is not hidden by push data
                junk.extend([0x00; 33]);
            }
            let pc = a.code.len();
            if c.chance(0.5) {
                let d = pc + 4 + junk.len();
                a.code.extend([0x61, (d >> 8) as u8, d as u8, 0x56]);
            } else {
                let d = pc + 6 + junk.len();
                a.code.extend([0x60, c.chance(0.7) as u8, 0x61, (d >> 8) as u8, d as u8, 0x57]);
            }
            a.code.extend(junk);
            a.op(0x5b);
        }
        20 => {
            // loop
            if depth < 2 {
                let m = if c.chance(0.1) { 200 } else { 6 };
                let n = 1 + c.below(m);
                a.push(n);
                let top = a.code.len();
                a.op(0x5b);
                for _ in 0..1 + c.below(2) {
                    let s = Style { fault: 0.0, ..st };
                    let at = a.code.len();
                    simple(a, c, p, s);
                    debug_assert!(a.code.len() > at);
                }
                a.push(1).op(0x90).op(0x03).op(0x80);
                a.code.extend([0x61, (top >> 8) as u8, top as u8, 0x57]);
                a.op(0x50);
            }
        }
        21..=25 => {
            let to = p.any(c);
            let to = if st.precompiles && c.chance(0.5) { Address::from_low_u64_be(1 + c.below(10) as u64) } else { to };
            if c.chance(0.5) {
                // known out area, so that stale bytes are visible
                a.push(U256::MAX).push(c.below(100)).op(0x52);
            }
            let pre = u_of(to);
            let mut il = mem_len(c);
            let mut ia = mem_at(c);
            if !pre.is_zero() && pre <= 10.into() && c.chance(0.8) {
                let d = precompile_input(c, pre.as_usize());
                il = d.len().into();
                ia = c.below(40).into();
                a.store_bytes(ia.as_usize(), d);
            }
            let kind = pick(c, &[0xf1u8, 0xf1, 0xf1, 0xf2, 0xf4, 0xfa]);
            a.push(mem_len(c)).push(mem_at(c)).push(il).push(ia);
            if kind == 0xf1 || kind == 0xf2 {
                a.push(small_value(c));
            }
            let gas = if !pre.is_zero() && pre <= 10.into() && c.chance(0.7) { U256::from(200_000) } else { gas_arg(c) };
            a.addr(to).push(gas).op(kind);
            sink(a, c);
            a.op(0x3d);
            sink(a, c);
            if c.chance(0.5) {
                // copy all of the return data
                a.op(0x3d).push(0).push(c.below(200)).op(0x3e);
                a.push(mem_len(c)).push(mem_at(c)).op(0x20);
                sink(a, c);
            }
        }
        26 | 27 => {
            if depth < 2 {
                let init = initcode(c, p, st, depth + 1);
                let at = c.below(64);
                let n = init.len();
                a.store_bytes(at, init);
                let two = c.chance(0.5);
                if two {
                    a.push(c.below(2));
                }
                a.push(n).push(at).push(small_value(c)).op(if two { 0xf5 } else { 0xf0 });
                a.op(0x80);
                sink(a, c);
                a.op(0x3d);
                sink(a, c);
                match c.below(4) {
                    0 => {
                        a.op(0x3f);
                        sink(a, c);
                    }
                    1 => {
                        // call what was created: [addr] -> out il ... order
                        a.push(0).push(0).push(0).push(0).push(c.below(3)).op(0x85).push(100_000).op(0xf1);
                        sink(a, c);
                        a.op(0x50);
                    }
                    2 => {
                        a.op(0x31);
                        sink(a, c);
                    }
                    _ => {
                        a.op(0x50);
                    }
                }
            }
        }
        28 | 29 => {
            let n = c.below(5);
            for _ in 0..n {
                a.push(word(c));
            }
            a.push(mem_len(c)).push(mem_at(c)).op(0xa0 + n as u8);
        }
        30 => {
            // conditional stop
            if c.chance(0.4) {
                let pc = a.code.len();
                let d = pc + 6 + 5;
                a.code.extend([0x60, c.chance(0.8) as u8, 0x61, (d >> 8) as u8, d as u8, 0x57]);
                let e = pick(c, &[0xf3u8, 0xfd, 0x00, 0xfe]);
                a.code.extend([0x60, c.below(64) as u8, 0x5f, e, 0x00]);
                a.op(0x5b);
            } else {
                simple(a, c, p, st);
            }
        }
        _ => {
            // stack gymnastics
            let n = 2 + c.below(15);
            for i in 0..n {
                a.push(i + 1);
            }
            for _ in 0..1 + c.below(6) {
                let k = c.below(n - 1);
                a.op(if c.chance(0.5) { 0x90 + k as u8 } else { 0x80 + k as u8 });
                if *a.code.last().unwrap() < 0x90 {
                    sink(a, c);
                }
            }
            for _ in 0..n {
                a.op(0x50);
            }
        }
    }
}

/// A statement of bounded size, for loop bodies.
fn simple(a: &mut Asm, c: &mut Case, _p: &Pool, _st: Style) {
    match c.below(5) {
        0 => {
            a.push(word(c)).push(word(c)).op(pick(c, &[1u8, 2, 3, 4, 0x10, 0x16, 0x18]));
            sink(a, c);
        }
        1 => {
            // a[i] with the loop counter on top of the stack
            a.op(0x80).op(0x80).op(0x55);
        }
        2 => {
            a.op(0x80).op(0x80).push(5).op(0x02).op(0x52);
        }
        3 => {
            a.push(c.below(100)).push(c.below(100)).op(0x20);
            sink(a, c);
        }
        _ => {
            a.push(slot(c)).op(0x54).push(1).op(0x01);
            a.push(slot(c)).op(0x55);
        }
    }
}

pub fn ending(a: &mut Asm, c: &mut Case, p: &Pool) {
    match c.below(10) {
        0 => {
            a.op(0x00);
        }
        1..=4 => {
            a.push(mem_len(c)).push(mem_at(c)).op(0xf3);
        }
        5 => {
            a.push(mem_len(c)).push(mem_at(c)).op(0xfd);
        }
        6 | 7 => {
            if c.chance(0.3) {
                a.op(0x30).op(0xff);
            } else {
                a.addr(p.any(c)).op(0xff);
            }
        }
        _ => {}
    }
}

pub fn body(c: &mut Case, p: &Pool, st: Style, depth: usize, n: usize) -> Vec<u8> {
    if c.chance(st.fault) {
        // anything
        let n = c.below(60);
        return (0..n)
            .map(|_| if c.chance(0.7) { pick(c, &[0x60u8, 0x5f, 0x80, 0x01, 0x5b, 0x56, 0x52, 0x54, 0x55, 0x3d, 0x5a, 0xf3]) } else { c.rng.gen() })
            .collect();
    }
    let mut a = Asm::default();
    for _ in 0..n {
        statement(&mut a, c, p, st, depth);
        if a.code.len() > 3000 {
            break;
        }
    }
    ending(&mut a, c, p);
    if !a.tail.is_empty() || c.chance(0.3) {
        a.op(0x00);
    }
    a.finish()
}

pub fn initcode(c: &mut Case, p: &Pool, st: Style, depth: usize) -> Vec<u8> {
    let mut a = Asm::default();
    for _ in 0..c.below(4) {
        statement(&mut a, c, p, st, depth);
    }
    match c.below(12) {
        0 => ending(&mut a, c, p),
        1 => {
            // refused: starts with 0xef
            a.push(0xef).push(0).op(0x53).push(1 + c.below(5)).push(0).op(0xf3);
        }
        2 => {
            a.push(pick(c, &[24576usize, 24577, 100])).push(0).op(0xf3);
        }
        3 => {
            a.op(0x00);
        }
        _ => {
            let n = 1 + c.below(6);
            let rt = body(c, p, st, depth + 1, n);
            let (n, at) = (rt.len(), c.below(40));
            a.store_bytes(at, rt);
            a.push(n).push(at).op(0xf3);
        }
    }
    a.op(0x00);
    a.finish()
}

// ---------------------------------------------------------------- precompiles
pub fn precompile_input(c: &mut Case, n: usize) -> Vec<u8> {
    let bytes = |c: &mut Case, n: usize| -> Vec<u8> { (0..n).map(|_| c.rng.gen()).collect() };
    let mut v = match n {
        1 => {
            let h: [u8; 32] = c.rng.gen();
            let ki = c.below(5);
            let (par, r, s) = keys()[ki].sign(&h);
            let (mut s, mut par) = (U256::from_big_endian(&s), par);
            if c.chance(0.4) {
                // the other root is as good
                let n = U256::from_big_endian(&rc::be(
                    &rc::hexn("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
                    32,
                ));
                s = n - s;
                par ^= 1;
            }
            let mut v = vec![0; 32];
            v[31] = 27 + par;
            let mut r = U256::from_big_endian(&r);
            match c.below(12) {
                0 => v[31] ^= 7,
                1 => v[5] = 1,
                2 => r = 0.into(),
                3 => s = 0.into(),
                4 => r = word(c),
                5 => s = word(c),
                6 => {
                    r = U256::from_big_endian(&rc::be(
                        &rc::hexn("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
                        32,
                    )) + c.below(3)
                        - 1
                }
                _ => {}
            }
            [h.to_vec(), v, b32(r).to_vec(), b32(s).to_vec()].concat()
        }
        2 | 3 | 4 => {
            let n = pick(c, &[0usize, 1, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 200]);
            bytes(c, n)
        }
        5 => {
            let len = |c: &mut Case| pick(c, &[0usize, 1, 2, 15, 16, 17, 31, 32, 33, 48, 64, 70]);
            let (bl, mut el, ml) = (len(c), len(c), len(c));
            if el > 33 || (bl > 33 || ml > 33) {
                el = el.min(2);
            }
            let mut v = [b32(bl.into()), b32(el.into()), b32(ml.into())].concat();
            if c.chance(0.05) {
                let i = c.below(3);
                v[32 * i..32 * i + 32].copy_from_slice(&b32(word(c)));
            }
            let f = |c: &mut Case, n: usize| -> Vec<u8> {
                match c.below(4) {
                    0 => vec![0; n],
                    1 => {
                        let mut v = vec![0; n];
                        if n > 0 {
                            v[n - 1] = c.below(4) as u8;
                        }
                        v
                    }
                    2 => vec![0xff; n],
                    _ => (0..n).map(|_| c.rng.gen()).collect(),
                }
            };
            v.extend(f(c, bl));
            v.extend(f(c, el));
            v.extend(f(c, ml));
            v
        }
        6 | 7 => {
            let (t, _) = rc::tables();
            let mut v = pick(c, t).1;
            if n == 6 {
                let mut w = if c.chance(0.25) { v.clone() } else { pick(c, t).1 };
                if c.chance(0.2) {
                    // the opposite point
                    w = v.clone();
                    if w.iter().any(|&x| x != 0) {
                        let y = &rc::bn().p - rc::big(&w[32..]);
                        w[32..].copy_from_slice(&rc::be(&y, 32));
                    }
                }
                v.extend(w);
            } else {
                v.extend(b32(match c.below(4) {
                    0 => c.below(20).into(),
                    1 => U256::from_big_endian(&rc::be(&rc::bn().r, 32)) - 2 + c.below(4),
                    _ => word(c),
                }));
            }
            if c.chance(0.15) {
                let i = c.below(v.len().min(128));
                v[i] ^= 1 << c.below(8);
            }
            if c.chance(0.1) {
                let at = 32 * c.below(2);
                v[at..at + 32].copy_from_slice(&rc::be(&(&rc::bn().p + c.below(2)), 32));
            }
            v
        }
        8 => {
            let (t1, t2) = rc::tables();
            let k = c.below(4);
            let mut v = vec![];
            match c.below(3) {
                0 if k >= 2 => {
                    // (a, b), (-b, a)
                    let (a, b) = (1 + c.below(11), 1 + c.below(11));
                    let n = rc::SCALARS as usize;
                    v.extend(&t1[a].1);
                    v.extend(&t2[b].1);
                    v.extend(&t1[n + b - 1].1);
                    v.extend(&t2[a].1);
                }
                _ => {
                    for _ in 0..k {
                        v.extend(pick(c, t1).1);
                        v.extend(pick(c, t2).1);
                    }
                }
            }
            if c.chance(0.15) && !v.is_empty() {
                let i = c.below(v.len());
                v[i] ^= 1 << c.below(8);
                // a change may hit on a valid point: make it certainly not one
                let b = i / 192 * 192;
                let (p1, p2) = (rc::g1_parse(&v[b..b + 64]), rc::g2_parse(&v[b + 64..b + 192]));
                if p1.is_some() && p2.is_some() {
                    v[b] = 0xff;
                }
            }
            if c.chance(0.05) {
                v.pop();
            }
            v
        }
        9 => {
            let rounds = pick(c, &[0u32, 1, 2, 9, 10, 11, 12, 13, 25]);
            let mut v = rounds.to_be_bytes().to_vec();
            v.extend(bytes(c, 208));
            v.push(c.below(2) as u8);
            match c.below(12) {
                0 => v[212] = 2 + c.below(250) as u8,
                1 => {
                    v.pop();
                }
                2 => v.push(0),
                3 => v[0] = 0xff,
                _ => {}
            }
            v
        }
        _ => kzg_input(c),
    };
    // cut or padded
    match c.below(14) {
        0 => {
            let k = c.below(v.len() + 1);
            if n != 8 {
                v.truncate(k);
            }
        }
        1 if n != 8 => {
            let k = c.below(40);
            v.extend(vec![0; k]);
        }
        _ => {}
    }
    v
}

/// Commitment, point, value and proof of polynomials that are not constant
/// (from the test vectors of c-kzg-4844).
const KZG_PROOFS: [[&str; 4]; 2] = [
    [
        "93efc82d2017e9c57834a1246463e64774e56183bb247c8fc9dd98c56817e878d97b05f5c8d900acf1fbbbca6f146556",
        "0000000000000000000000000000000000000000000000000000000000000001",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "b9241c6816af6388d1014cd4d7dd21662a6e3d47f96c0257bce642b70e8e375839a880864638669c6a709b414ab8bffc",
    ],
    [
        "8f59a8d2a1a625a17f3fea0fe5eb8c896db3764f3185481bc22f91b4aaffcca25f26936857bc3a7c2539ea8ec3a952b7",
        "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000000",
        "1522a4a7f34e1ea350ae07c29c96c7e79655aa926122e95fe69fcbd932ca49e9",
        "a62ad71d14c5719385c0686f1871430475bf3a00f0aa3f7b8dd99a9abc2160744faf0070725e00b60ad9a026a15b1a8c",
    ],
];

fn kzg_input(c: &mut Case) -> Vec<u8> {
    let b = rc::bls();
    let scalar = |c: &mut Case| match c.below(5) {
        0 => 0u8.into(),
        1 => &b.r - 1u8,
        _ => rc::big(&b32(word(c))) % &b.r,
    };
    let m = c.below(24);
    let mut y = scalar(c);
    if m == 1 {
        y = 0u8.into();
    }
    // k times a known polynomial, plus a constant
    let (mut comm, mut proof, mut z) = (rc::g1_mul(&b.g, &y, &b.p), None, b32(word(c)).to_vec());
    if rc::big(&z) >= b.r && c.chance(0.9) {
        z[0] = 0;
    }
    if c.chance(0.4) {
        let v = pick(c, &KZG_PROOFS).map(|h| rc::be(&rc::hexn(h), h.len() / 2));
        let k = scalar(c);
        let (c0, p0) = (rc::bls_decompress(&v[0]).unwrap(), rc::bls_decompress(&v[3]).unwrap());
        comm = rc::g1_add(&rc::g1_mul(&c0, &k, &b.p), &comm, &b.p);
        proof = rc::g1_mul(&p0, &k, &b.p);
        z = v[1].clone();
        y = (&y + &k * rc::big(&v[2])) % &b.r;
    }
    let mut ok = true;
    // a point of the curve, but not of the subgroup
    let t = Some((0u8.into(), 2u8.into()));
    match m {
        2 => comm = rc::g1_add(&comm, &t, &b.p),
        3 => proof = rc::g1_add(&proof, &t, &b.p),
        4 => {
            proof = rc::g1_add(&proof, &b.g, &b.p);
            ok = false;
        }
        5 => {
            comm = rc::g1_add(&comm, &b.g, &b.p);
            ok = false;
        }
        _ => {}
    }
    let mut proof = rc::bls_compress(&proof).to_vec();
    let mut comm = rc::bls_compress(&comm).to_vec();
    let mut yb = rc::be(&y, 32);
    match m {
        0 => {
            // wrong value
            yb = rc::be(&((&y + 1u8) % &b.r), 32);
            ok = false;
        }
        1 => yb = rc::be(&(&y + &b.r), 32),
        6 => proof[1 + c.below(47)] ^= 1,
        7 => proof[0] ^= pick(c, &[0x40, 0x80, 0x20]),
        8 => comm[0] ^= pick(c, &[0x40, 0x80, 0x20]),
        9 => comm[1 + c.below(47)] ^= 1,
        10 => {
            // an abscissa that is not reduced
            comm = rc::be(&b.p, 48);
            comm[0] |= 0x80;
        }
        11 => z = rc::be(&b.r, 32),
        _ => {}
    }
    // flipped bits may hit on other points
    ok &= !(6..=9).contains(&m);
    let mut vh = rc::kzg_versioned_hash(&comm).to_vec();
    if m == 12 {
        vh[c.below(32)] ^= 1;
    }
    let v = [vh, z, yb, comm, proof].concat();
    rc::KZG_KNOWN.lock().unwrap().insert(v.clone(), ok);
    v
}

// ---------------------------------------------------------------- worlds
pub fn ghost(i: u64) -> Address {
    Address::from_low_u64_be(0xdead_0000 + i)
}
pub fn contract(i: u64) -> Address {
    let mut a = Address::from_low_u64_be(0xc0de_0000 + i);
    a.0[0] = 0x11 * (i as u8 + 1);
    a
}

pub fn pool() -> Pool {
    Pool {
        contracts: (0..5).map(contract).collect(),
        eoas: keys().iter().map(|k| k.addr).collect(),
        ghosts: (0..3).map(ghost).collect(),
    }
}

pub fn gen_env(c: &mut Case) -> Env {
    let number = if c.chance(0.2) { 1 + c.below(300) as u64 } else { 1_000_000 + c.below(1000) as u64 };
    Env {
        coinbase: match c.below(6) {
            0 => keys()[0].addr,
            1 => contract(1),
            2 => Address::from_low_u64_be(c.below(11) as u64),
            _ => Address::from_low_u64_be(0xbeef_0000_0001),
        },
        timestamp: (1_700_000_000u64 + c.below(100_000) as u64).into(),
        number,
        difficulty: word(c),
        random: H256(c.rng.gen()),
        gas_limit: pick(c, &[30_000_000u64, 30_000_000, 30_000_001, 36_000_000, 0xffff_ffff]),
        chain_id: pick(c, &[1u64, 1, 5, 127, 128, 137, 1101, 1 << 20]),
        base_fee: match c.below(4) {
            0 => 0.into(),
            1 => 7.into(),
            _ => (1_000_000_000u64 + c.below(1000) as u64).into(),
        },
        excess_blob_gas: pick(c, &[0u64, 0, 131072, 10_000_000, 50_000_000]),
        parent_root: if c.chance(0.1) { H256::zero() } else { H256(c.rng.gen()) },
        prev_hashes: (0..256).map(|i| H256::from_low_u64_be(0xabc000 + i)).collect(),
        cur_hash: H256(c.rng.gen()),
    }
}

pub fn gen_world(c: &mut Case, p: &Pool, st: Style) -> World {
    let mut w = World::new();
    let eth = U256::exp10(18);
    w.insert(beacon_address(), Acct { nonce: 1, code: Arc::new(beacon_code()), ..Default::default() });
    for (i, k) in keys().iter().enumerate() {
        if i < 3 || c.chance(0.5) {
            w.insert(k.addr, Acct { nonce: pick(c, &[0u64, 1, 127, 128, 255, 256, 70000]), balance: eth * 1000 + c.below(1000), ..Default::default() });
        }
    }
    for &a in &p.contracts {
        if c.chance(0.9) {
            let n = 1 + c.below(9);
            let code = body(c, p, st, 0, n);
            let mut storage = std::collections::BTreeMap::new();
            for _ in 0..c.below(5) {
                let v = slot_value(c);
                if !v.is_zero() {
                    storage.insert(slot(c), v);
                }
            }
            let balance = pick(c, &[U256::zero(), 1.into(), 1000.into(), eth]);
            w.insert(a, Acct { nonce: 1, balance, code: Arc::new(code), storage });
        }
    }
    for i in 0..3 {
        if c.chance(0.2) {
            w.insert(ghost(i), Acct { balance: (1 + c.below(9)).into(), ..Default::default() });
        }
    }
    if c.chance(0.2) {
        w.insert(Address::from_low_u64_be(1 + c.below(9) as u64), Acct { balance: 1.into(), ..Default::default() });
    }
    w
}

pub fn beacon_code() -> Vec<u8> {
    rc::be(&rc::hexn("3373fffffffffffffffffffffffffffffffffffffffe14604d57602036146024575f5ffd5b5f35801560495762001fff810690815414603c575f5ffd5b62001fff01545f5260205ff35b5f5ffd5b62001fff42064281555f359062001fff015500"), 97)
}

pub fn gen_tx(c: &mut Case, p: &Pool, w: &World, env: &Env, st: Style) -> Option<(Tx, usize)> {
    let i = c.below(keys().len());
    let s = w.get(&keys()[i].addr)?;
    let ty = pick(c, &[0u8, 0, 1, 2, 2, 3]);
    let create = ty != 3 && c.chance(0.2);
    let to = if create {
        None
    } else if c.chance(0.75) {
        Some(pick(c, &p.contracts))
    } else {
        Some(p.any(c))
    };
    let data = if create {
        initcode(c, p, st, 0)
    } else if let Some(n) = to.map(u_of).filter(|x| !x.is_zero() && *x <= 10.into()) {
        precompile_input(c, n.as_usize())
    } else if c.chance(0.5) {
        vec![]
    } else {
        (0..c.below(140)).map(|_| if c.chance(0.4) { 0 } else { c.rng.gen() }).collect()
    };
    let max_fee = env.base_fee + pick(c, &[0u64, 1, 1_000_000_000, 12345]);
    let max_prio = if ty >= 2 { pick(c, &[U256::zero(), 1.into(), max_fee, 1000.into()]).min(max_fee) } else { max_fee };
    let access_list = if ty > 0 {
        (0..c.below(4))
            .map(|_| {
                let a = p.any(c);
                (a, (0..c.below(4)).map(|_| slot(c)).collect())
            })
            .collect()
    } else {
        vec![]
    };
    let mut tx = Tx {
        ty,
        sender: keys()[i].addr,
        nonce: s.nonce,
        max_fee,
        max_prio,
        gas: 0,
        to,
        value: match c.below(4) {
            0 => U256::from(c.below(1000)),
            1 => 1.into(),
            _ => 0.into(),
        },
        data,
        access_list,
        blob_hashes: if ty == 3 {
            (0..1 + c.below(6))
                .map(|_| {
                    let mut h: [u8; 32] = c.rng.gen();
                    h[0] = 1;
                    H256(h)
                })
                .collect()
        } else {
            vec![]
        },
        max_blob_fee: if ty == 3 { env.blob_base_fee() + c.below(3) } else { 0.into() },
    };
    let ig = intrinsic(&tx);
    tx.gas = ig
        + match c.below(8) {
            0 => 0,
            1 => c.below(3000) as u64,
            2 => c.below(40000) as u64,
            _ => 300_000 + c.below(700_000) as u64,
        };
    Some((tx, i))
}

pub fn gen_block(c: &mut Case, st: Style, max_txs: usize) -> (Vec<Batch>, Stats) {
    let p = pool();
    let env = gen_env(c);
    let mut world = gen_world(c, &p, st);
    let nb = 1 + c.chance(0.25) as usize;
    let mut stats = Stats { trace: std::env::var_os("VH_TRACE").is_some(), ..Default::default() };
    // Transactions are generated against the running world, so that nonces fit.
    let mut w = world.clone();
    beacon_update(&mut w, &env);
    let mut batches = vec![];
    let mut gas = 0;
    for _ in 0..nb {
        let mut b = vec![];
        for _ in 0..1 + c.below(max_txs) {
            let Some((tx, k)) = gen_tx(c, &p, &w, &env, st) else { continue };
            if let Ok(r) = apply_tx(&mut w, &env, &tx, env.gas_limit - gas, &mut Stats::default(), &|_| None) {
                gas += r.gas_used;
                let e155 = c.chance(0.7);
                b.push(TxIn { raw: encode_tx(&tx, &keys()[k], env.chain_id, e155), tx });
            }
        }
        batches.push(b);
    }
    let wd = if c.chance(0.3) {
        (0..1 + c.below(3)).map(|_| (p.any(c), pick(c, &[U256::zero(), 1.into(), U256::exp10(18)]))).collect()
    } else {
        vec![]
    };
    let out = run_block(&mut world, &env, batches, wd, &mut stats, &|_| None);
    (out, stats)
}
