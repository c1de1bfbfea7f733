//! A reference EVM (Cancun), written from the execution specification. State is
//! cloned at every call frame, so that reverting is trivially right.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use ethereum_types::{Address, H256, U256, U512};
use keccak_hash::keccak;

use crate::refcrypto as rc;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Acct {
    pub nonce: u64,
    pub balance: U256,
    pub code: Arc<Vec<u8>>,
    pub storage: BTreeMap<U256, U256>,
}
impl Acct {
    pub fn empty(&self) -> bool {
        self.nonce == 0 && self.balance.is_zero() && self.code.is_empty()
    }
}
pub type World = BTreeMap<Address, Acct>;

#[derive(Clone, Debug)]
pub struct Env {
    pub coinbase: Address,
    pub timestamp: U256,
    pub number: u64,
    pub difficulty: U256,
    pub random: H256,
    pub gas_limit: u64,
    pub chain_id: u64,
    pub base_fee: U256,
    pub excess_blob_gas: u64,
    pub parent_root: H256,
    pub prev_hashes: Vec<H256>,
    pub cur_hash: H256,
}
impl Env {
    pub fn blob_base_fee(&self) -> U256 {
        let (num, den) = (U512::from(self.excess_blob_gas), U512::from(3338477u64));
        let (mut i, mut out, mut acc) = (U512::one(), U512::zero(), den);
        while !acc.is_zero() {
            out += acc;
            acc = acc * num / (den * i);
            i += U512::one();
        }
        U256::try_from(out / den).unwrap()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Log {
    pub addr: Address,
    pub topics: Vec<H256>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub ty: u8,
    pub sender: Address,
    pub nonce: u64,
    /// gas price, or max fee
    pub max_fee: U256,
    pub max_prio: U256,
    pub gas: u64,
    pub to: Option<Address>,
    pub value: U256,
    pub data: Vec<u8>,
    pub access_list: Vec<(Address, Vec<U256>)>,
    pub blob_hashes: Vec<H256>,
    pub max_blob_fee: U256,
}
#[derive(Clone, Debug)]
pub struct Receipt {
    pub success: bool,
    pub gas_used: u64,
    pub logs: Vec<Log>,
}

#[derive(Clone, Default)]
struct Sub {
    warm: BTreeSet<Address>,
    warm_slots: BTreeSet<(Address, U256)>,
    transient: BTreeMap<(Address, U256), U256>,
    refund: i64,
    logs: Vec<Log>,
    destroyed: BTreeSet<Address>,
    created: BTreeSet<Address>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Halt {
    Ok,
    Revert,
    Exc,
}

pub struct Out {
    pub halt: Halt,
    pub gas: u64,
    pub data: Vec<u8>,
}

struct Msg {
    target: Address,
    caller: Address,
    code: Arc<Vec<u8>>,
    data: Vec<u8>,
    value: U256,
    gas: u64,
    is_static: bool,
    depth: usize,
}

/// What was exercised: counted by the monitors.
#[derive(Default, Clone)]
pub struct Stats {
    pub ops: BTreeMap<u8, u64>,
    pub events: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub trace: bool,
    /// If asked for: the gas left before each step of the outermost frame.
    pub gas_steps: Option<Vec<u64>>,
    /// Ignore this reason why a transaction is not valid.
    pub force: &'static str,
    pub forced: bool,
    /// What the last transaction looked at (as tracers of nodes record it).
    pub touched: BTreeSet<Address>,
    pub slots: BTreeSet<(Address, U256)>,
    /// Addresses at which it tried to create a contract.
    pub tried: BTreeSet<Address>,
    /// Accounts whose code was run or read.
    pub code_read: BTreeSet<Address>,
    pub suicides: BTreeSet<Address>,
}
impl Stats {
    pub fn ev(&mut self, k: &'static str) {
        *self.events.entry(k).or_default() += 1;
    }
}

pub struct Vm<'a> {
    pub world: World,
    original: World,
    env: &'a Env,
    origin: Address,
    gas_price: U256,
    blob_hashes: Vec<H256>,
    sub: Sub,
    pub stats: Stats,
    pub kzg_known: &'a (dyn Fn(&[u8]) -> Option<bool> + Sync),
}

pub fn addr_of(x: U256) -> Address {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    Address::from_slice(&b[12..])
}
pub fn u_of(a: Address) -> U256 {
    U256::from_big_endian(&a.0)
}
pub fn b32(x: U256) -> [u8; 32] {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    b
}
fn words(n: u64) -> u64 {
    n / 32 + (n % 32 != 0) as u64
}
pub fn create_address(sender: Address, nonce: u64) -> Address {
    let mut nb = nonce.to_be_bytes().to_vec();
    while nb.first() == Some(&0) {
        nb.remove(0);
    }
    let mut p = vec![0x94];
    p.extend(sender.0);
    if nb.len() == 1 && nb[0] < 0x80 {
        p.push(nb[0]);
    } else {
        p.push(0x80 + nb.len() as u8);
        p.extend(nb);
    }
    let mut l = vec![0xc0 + p.len() as u8];
    l.extend(p);
    Address::from_slice(&keccak(l).0[12..])
}
pub fn create2_address(sender: Address, salt: U256, init: &[u8]) -> Address {
    let mut p = vec![0xff];
    p.extend(sender.0);
    p.extend(b32(salt));
    p.extend(keccak(init).0);
    Address::from_slice(&keccak(p).0[12..])
}
pub fn jumpdests(code: &[u8]) -> BTreeSet<usize> {
    let (mut s, mut i) = (BTreeSet::new(), 0);
    while i < code.len() {
        match code[i] {
            0x5b => {
                s.insert(i);
            }
            x @ 0x60..=0x7f => i += x as usize - 0x5f,
            _ => {}
        }
        i += 1;
    }
    s
}
fn neg(x: U256) -> U256 {
    (!x).overflowing_add(U256::one()).0
}
fn sign(x: U256) -> bool {
    x.bit(255)
}
fn abs(x: U256) -> U256 {
    if sign(x) { neg(x) } else { x }
}

const MAX_CODE: usize = 0x6000;

/// Gas of a memory access [at, at+len) given the current size in words, and
/// the new size. None: too expensive for any gas limit.
fn mem_cost(w: u64) -> u64 {
    if w > 1 << 30 { u64::MAX / 2 } else { 3 * w + w * w / 512 }
}

enum Stop {
    Exc,
    Halt(Halt, Vec<u8>),
}
type S<T> = Result<T, Stop>;

struct Frame<'m> {
    m: &'m Msg,
    pc: usize,
    gas: u64,
    stack: Vec<U256>,
    mem: Vec<u8>,
    ret: Vec<u8>,
    dests: BTreeSet<usize>,
}
impl Frame<'_> {
    fn charge(&mut self, n: u64) -> S<()> {
        if n > self.gas {
            self.gas = 0;
            return Err(Stop::Exc);
        }
        self.gas -= n;
        Ok(())
    }
    fn pop(&mut self) -> S<U256> {
        self.stack.pop().ok_or(Stop::Exc)
    }
    fn push(&mut self, x: U256) -> S<()> {
        if self.stack.len() >= 1024 {
            return Err(Stop::Exc);
        }
        self.stack.push(x);
        Ok(())
    }
    /// Charges for, and grows the memory to, all the given ranges.
    fn expand(&mut self, ranges: &[(U256, U256)]) -> S<()> {
        let cur = (self.mem.len() / 32) as u64;
        let mut need = cur;
        for &(at, len) in ranges {
            if len.is_zero() {
                continue;
            }
            if at.bits() > 40 || len.bits() > 40 {
                self.gas = 0;
                return Err(Stop::Exc);
            }
            need = need.max(words(at.as_u64() + len.as_u64()));
        }
        self.charge(mem_cost(need) - mem_cost(cur))?;
        self.mem.resize(need as usize * 32, 0);
        Ok(())
    }
    fn get(&self, at: U256, len: U256) -> Vec<u8> {
        if len.is_zero() {
            return vec![];
        }
        self.mem[at.as_usize()..at.as_usize() + len.as_usize()].to_vec()
    }
    fn put(&mut self, at: U256, b: &[u8]) {
        if !b.is_empty() {
            let at = at.as_usize();
            self.mem[at..at + b.len()].copy_from_slice(b);
        }
    }
}
fn data_slice(b: &[u8], at: U256, len: U256) -> Vec<u8> {
    if at >= U256::from(b.len()) {
        return vec![0; len.as_usize()];
    }
    rc::slice(b, at.as_usize(), len.as_usize())
}

impl<'a> Vm<'a> {
    fn acct(&self, a: Address) -> Acct {
        self.world.get(&a).cloned().unwrap_or_default()
    }
    fn balance(&self, a: Address) -> U256 {
        self.world.get(&a).map(|x| x.balance).unwrap_or_default()
    }
    fn add(&mut self, a: Address, v: U256) {
        self.world.entry(a).or_default().balance += v;
    }
    fn sub_bal(&mut self, a: Address, v: U256) {
        self.world.entry(a).or_default().balance -= v;
    }
    fn prune_empty(&mut self) {
        self.world.retain(|_, a| !a.empty());
    }

    fn warm(&mut self, a: Address) -> bool {
        !self.sub.warm.insert(a)
    }

    fn precompile(&mut self, a: Address, data: &[u8], gas: u64) -> Option<Out> {
        run_precompile(&mut self.stats, self.kzg_known, a, data, gas)
    }
    /// A message call, with the value transfer.
    fn call(&mut self, m: Msg, code_from: Address, transfer: bool) -> Out {
        let (w, s) = (self.world.clone(), self.sub.clone());
        if transfer && !m.value.is_zero() {
            self.sub_bal(m.caller, m.value);
            self.add(m.target, m.value);
        }
        let out = match self.precompile(code_from, &m.data, m.gas) {
            Some(o) => o,
            None => self.run(&m),
        };
        if out.halt != Halt::Ok {
            self.world = w;
            self.sub = s;
        }
        out
    }

    /// Runs initcode at a fresh address. The nonce of the creator and the
    /// warming of the address are not part of what reverts.
    fn create(&mut self, creator: Address, addr: Address, init: Vec<u8>, value: U256, gas: u64, depth: usize) -> Out {
        let old = self.acct(addr);
        if old.nonce != 0 || !old.code.is_empty() {
            self.stats.ev("create collision");
            return Out { halt: Halt::Exc, gas: 0, data: vec![] };
        }
        let (w, s) = (self.world.clone(), self.sub.clone());
        self.sub.created.insert(addr);
        {
            let a = self.world.entry(addr).or_default();
            a.nonce = 1;
            a.storage.clear();
        }
        self.sub_bal(creator, value);
        self.add(addr, value);
        let m = Msg { target: addr, caller: creator, code: Arc::new(init), data: vec![], value, gas, is_static: false, depth };
        let mut out = self.run(&m);
        if out.halt == Halt::Ok {
            let cost = 200 * out.data.len() as u64;
            if out.data.first() == Some(&0xef) || out.data.len() > MAX_CODE || cost > out.gas {
                self.stats.ev(if cost > out.gas { "code deposit out of gas" } else { "bad deployed code" });
                out = Out { halt: Halt::Exc, gas: 0, data: vec![] };
            } else {
                out.gas -= cost;
                self.stats.ev("contract created");
                self.world.get_mut(&addr).unwrap().code = Arc::new(std::mem::take(&mut out.data));
            }
        }
        if out.halt != Halt::Ok {
            self.world = w;
            self.sub = s;
        }
        out
    }

    fn run(&mut self, m: &Msg) -> Out {
        let dests = jumpdests(&m.code);
        let mut f = Frame { m, pc: 0, gas: m.gas, stack: vec![], mem: vec![], ret: vec![], dests };
        loop {
            let op = m.code.get(f.pc).copied().unwrap_or(0);
            if self.stats.trace {
                eprintln!("R {} {}\nOP {} {op:02x} left {} depth {} top {:x?}", f.pc, m.gas - f.gas, f.pc, f.gas, m.depth, f.stack.last());
            }
            if m.depth == 0 {
                if let Some(v) = &mut self.stats.gas_steps {
                    v.push(f.gas);
                }
            }
            *self.stats.ops.entry(op).or_default() += 1;
            self.stats.steps += 1;
            match self.step(&mut f, op) {
                Ok(()) => {}
                Err(Stop::Exc) => {
                    self.stats.ev("exception");
                    return Out { halt: Halt::Exc, gas: 0, data: vec![] };
                }
                Err(Stop::Halt(h, data)) => {
                    if h == Halt::Revert {
                        self.stats.ev("revert");
                    }
                    return Out { halt: h, gas: f.gas, data };
                }
            }
        }
    }

    fn account_access(&mut self, f: &mut Frame, a: Address) -> S<()> {
        let c = if self.sub.warm.contains(&a) { 100 } else { 2600 };
        f.charge(c)?;
        self.sub.warm.insert(a);
        Ok(())
    }

    /// As a node's tracer does, before the instruction.
    fn record(&mut self, f: &Frame, op: u8) {
        let n = f.stack.len();
        let me = f.m.target;
        match op {
            0x54 | 0x55 if n >= 1 => {
                self.stats.slots.insert((me, f.stack[n - 1]));
            }
            0x31 | 0x3b | 0x3c | 0x3f | 0xff if n >= 1 => {
                let a = addr_of(f.stack[n - 1]);
                self.stats.touched.insert(a);
                if op == 0x3b || op == 0x3c {
                    self.stats.code_read.insert(a);
                }
                if op == 0xff {
                    self.stats.suicides.insert(me);
                }
            }
            0xf1 | 0xf2 | 0xf4 | 0xfa if n >= 5 => {
                let a = addr_of(f.stack[n - 2]);
                self.stats.touched.insert(a);
                self.stats.code_read.insert(a);
            }
            0xf0 => {
                let a = create_address(me, self.acct(me).nonce);
                self.stats.touched.insert(a);
                self.stats.tried.insert(a);
            }
            0xf5 if n >= 4 => {
                let (at, len) = (f.stack[n - 2], f.stack[n - 3]);
                if at.bits() < 24 && len.bits() < 24 {
                    let mut init = f.mem.clone();
                    init.resize((at + len).as_usize().max(init.len()), 0);
                    let a = create2_address(me, f.stack[n - 4], &init[at.as_usize()..(at + len).as_usize()]);
                    self.stats.touched.insert(a);
                    self.stats.tried.insert(a);
                }
            }
            _ => {}
        }
    }
    fn step(&mut self, f: &mut Frame, op: u8) -> S<()> {
        self.record(f, op);
        let me = f.m.target;
        let zero = U256::zero();
        let one = U256::one();
        let mut next = f.pc + 1;
        match op {
            0x00 => return Err(Stop::Halt(Halt::Ok, vec![])),
            0x01..=0x07 | 0x0b | 0x10..=0x14 | 0x16..=0x18 | 0x1a..=0x1d | 0x0a => {
                let need = 2;
                if f.stack.len() < need {
                    return Err(Stop::Exc);
                }
                let (a, b) = (f.pop()?, f.pop()?);
                let cost = match op {
                    0x02 | 0x04..=0x07 | 0x0b => 5,
                    0x0a => 10 + 50 * ((b.bits() as u64 + 7) / 8),
                    _ => 3,
                };
                f.charge(cost)?;
                let r = match op {
                    0x01 => a.overflowing_add(b).0,
                    0x02 => a.overflowing_mul(b).0,
                    0x03 => a.overflowing_sub(b).0,
                    0x04 => a.checked_div(b).unwrap_or_default(),
                    0x05 => {
                        let q = abs(a).checked_div(abs(b)).unwrap_or_default();
                        if sign(a) != sign(b) { neg(q) } else { q }
                    }
                    0x06 => a.checked_rem(b).unwrap_or_default(),
                    0x07 => {
                        let q = abs(a).checked_rem(abs(b)).unwrap_or_default();
                        if sign(a) { neg(q) } else { q }
                    }
                    0x0a => {
                        let (mut r, mut x) = (one, a);
                        for i in 0..b.bits() {
                            if b.bit(i) {
                                r = r.overflowing_mul(x).0;
                            }
                            x = x.overflowing_mul(x).0;
                        }
                        r
                    }
                    0x0b => {
                        if a >= U256::from(31) {
                            b
                        } else {
                            let bit = a.as_usize() * 8 + 7;
                            let mask = (one << (bit + 1)) - one;
                            if b.bit(bit) { b | !mask } else { b & mask }
                        }
                    }
                    0x10 => ((a < b) as u8).into(),
                    0x11 => ((a > b) as u8).into(),
                    0x12 => ((if sign(a) != sign(b) { sign(a) } else { a < b }) as u8).into(),
                    0x13 => ((if sign(a) != sign(b) { sign(b) } else { a > b }) as u8).into(),
                    0x14 => ((a == b) as u8).into(),
                    0x16 => a & b,
                    0x17 => a | b,
                    0x18 => a ^ b,
                    0x1a => {
                        if a >= U256::from(32) { zero } else { b.byte(31 - a.as_usize()).into() }
                    }
                    0x1b => {
                        if a >= U256::from(256) { zero } else { b << a.as_usize() }
                    }
                    0x1c => {
                        if a >= U256::from(256) { zero } else { b >> a.as_usize() }
                    }
                    _ => {
                        let n = if a >= U256::from(256) { 256 } else { a.as_usize() };
                        let fill = if !sign(b) || n == 0 {
                            zero
                        } else if n == 256 {
                            U256::MAX
                        } else {
                            U256::MAX << (256 - n)
                        };
                        (if n == 256 { zero } else { b >> n }) | fill
                    }
                };
                f.push(r)?;
            }
            0x08 | 0x09 => {
                if f.stack.len() < 3 {
                    return Err(Stop::Exc);
                }
                let (a, b, n) = (f.pop()?, f.pop()?, f.pop()?);
                f.charge(8)?;
                let r = if n.is_zero() {
                    zero
                } else {
                    let (a, b, n) = (U512::from(a), U512::from(b), U512::from(n));
                    U256::try_from(if op == 8 { (a + b) % n } else { (a * b) % n }).unwrap()
                };
                f.push(r)?;
            }
            0x15 | 0x19 => {
                let a = f.pop()?;
                f.charge(3)?;
                f.push(if op == 0x15 { (a.is_zero() as u8).into() } else { !a })?;
            }
            0x20 => {
                let (at, len) = (f.pop()?, f.pop()?);
                if len.bits() > 40 {
                    return Err(Stop::Exc);
                }
                f.charge(30 + 6 * words(len.as_u64()))?;
                f.expand(&[(at, len)])?;
                f.push(U256::from_big_endian(&keccak(f.get(at, len)).0))?;
            }
            0x30 | 0x32 | 0x33 | 0x34 | 0x36 | 0x38 | 0x3a | 0x3d | 0x41..=0x46 | 0x48 | 0x4a | 0x58 | 0x59 | 0x5a | 0x5f => {
                f.charge(2)?;
                let e = self.env;
                let v = match op {
                    0x30 => u_of(me),
                    0x32 => u_of(self.origin),
                    0x33 => u_of(f.m.caller),
                    0x34 => f.m.value,
                    0x36 => f.m.data.len().into(),
                    0x38 => f.m.code.len().into(),
                    0x3a => self.gas_price,
                    0x3d => f.ret.len().into(),
                    0x41 => u_of(e.coinbase),
                    0x42 => e.timestamp,
                    0x43 => e.number.into(),
                    0x44 => U256::from_big_endian(&e.random.0),
                    0x45 => e.gas_limit.into(),
                    0x46 => e.chain_id.into(),
                    0x48 => e.base_fee,
                    0x4a => e.blob_base_fee(),
                    0x58 => f.pc.into(),
                    0x59 => f.mem.len().into(),
                    0x5a => f.gas.into(),
                    _ => zero,
                };
                f.push(v)?;
            }
            0x47 => {
                f.charge(5)?;
                f.push(self.balance(me))?;
            }
            0x31 | 0x3b | 0x3f => {
                let a = addr_of(f.pop()?);
                self.account_access(f, a)?;
                let acct = self.world.get(&a);
                let v = match op {
                    0x31 => self.balance(a),
                    0x3b => acct.map_or(0, |x| x.code.len()).into(),
                    _ => match acct {
                        Some(x) if !x.empty() => U256::from_big_endian(&keccak(&*x.code).0),
                        _ => zero,
                    },
                };
                f.push(v)?;
            }
            0x35 => {
                let at = f.pop()?;
                f.charge(3)?;
                f.push(U256::from_big_endian(&data_slice(&f.m.data, at, 32.into())))?;
            }
            0x37 | 0x39 | 0x3e => {
                let (dst, src, len) = (f.pop()?, f.pop()?, f.pop()?);
                if len.bits() > 40 {
                    return Err(Stop::Exc);
                }
                f.charge(3 + 3 * words(len.as_u64()))?;
                f.expand(&[(dst, len)])?;
                let d = match op {
                    0x37 => data_slice(&f.m.data, src, len),
                    0x39 => data_slice(&f.m.code, src, len),
                    _ => {
                        if src.checked_add(len).map_or(true, |e| e > f.ret.len().into()) {
                            self.stats.ev("returndata out of bounds");
                            return Err(Stop::Exc);
                        }
                        data_slice(&f.ret, src, len)
                    }
                };
                f.put(dst, &d);
            }
            0x3c => {
                if f.stack.len() < 4 {
                    return Err(Stop::Exc);
                }
                let a = addr_of(f.pop()?);
                let (dst, src, len) = (f.pop()?, f.pop()?, f.pop()?);
                if len.bits() > 40 {
                    return Err(Stop::Exc);
                }
                f.charge(3 * words(len.as_u64()))?;
                f.expand(&[(dst, len)])?;
                self.account_access(f, a)?;
                let code = self.acct(a).code;
                f.put(dst, &data_slice(&code, src, len));
            }
            0x40 => {
                let n = f.pop()?;
                f.charge(20)?;
                let cur = U256::from(self.env.number);
                let v = if n < cur && n + 256 >= cur {
                    let back = (cur - n).as_usize();
                    U256::from_big_endian(&self.env.prev_hashes[256 - back].0)
                } else {
                    zero
                };
                f.push(v)?;
            }
            0x49 => {
                let i = f.pop()?;
                f.charge(3)?;
                let v = if i < self.blob_hashes.len().into() {
                    U256::from_big_endian(&self.blob_hashes[i.as_usize()].0)
                } else {
                    zero
                };
                f.push(v)?;
            }
            0x50 => {
                f.charge(2)?;
                f.pop()?;
            }
            0x51 => {
                let at = f.pop()?;
                f.charge(3)?;
                f.expand(&[(at, 32.into())])?;
                f.push(U256::from_big_endian(&f.get(at, 32.into())))?;
            }
            0x52 | 0x53 => {
                let (at, v) = (f.pop()?, f.pop()?);
                f.charge(3)?;
                if op == 0x52 {
                    f.expand(&[(at, 32.into())])?;
                    f.put(at, &b32(v));
                } else {
                    f.expand(&[(at, one)])?;
                    f.put(at, &[v.byte(0)]);
                }
            }
            0x54 => {
                let k = f.pop()?;
                let warm = self.sub.warm_slots.contains(&(me, k));
                f.charge(if warm { 100 } else { 2100 })?;
                self.sub.warm_slots.insert((me, k));
                let v = self.world.get(&me).and_then(|a| a.storage.get(&k)).copied().unwrap_or_default();
                f.push(v)?;
            }
            0x55 => {
                let (k, v) = (f.pop()?, f.pop()?);
                if f.gas <= 2300 {
                    return Err(Stop::Exc);
                }
                let orig = if self.sub.created.contains(&me) {
                    zero
                } else {
                    self.original.get(&me).and_then(|a| a.storage.get(&k)).copied().unwrap_or_default()
                };
                let cur = self.world.get(&me).and_then(|a| a.storage.get(&k)).copied().unwrap_or_default();
                let mut c = 0;
                if self.sub.warm_slots.insert((me, k)) {
                    c += 2100;
                }
                c += if orig == cur && cur != v {
                    if orig.is_zero() { 20000 } else { 2900 }
                } else {
                    100
                };
                if cur != v {
                    if !orig.is_zero() && !cur.is_zero() && v.is_zero() {
                        self.sub.refund += 4800;
                    }
                    if !orig.is_zero() && cur.is_zero() {
                        self.sub.refund -= 4800;
                    }
                    if orig == v {
                        self.sub.refund += if orig.is_zero() { 20000 - 100 } else { 5000 - 2100 - 100 };
                    }
                }
                f.charge(c)?;
                if f.m.is_static {
                    self.stats.ev("static violation");
                    return Err(Stop::Exc);
                }
                let st = &mut self.world.entry(me).or_default().storage;
                if v.is_zero() {
                    st.remove(&k);
                } else {
                    st.insert(k, v);
                }
            }
            0x5c => {
                let k = f.pop()?;
                f.charge(100)?;
                f.push(self.sub.transient.get(&(me, k)).copied().unwrap_or_default())?;
            }
            0x5d => {
                let (k, v) = (f.pop()?, f.pop()?);
                f.charge(100)?;
                if f.m.is_static {
                    self.stats.ev("static violation");
                    return Err(Stop::Exc);
                }
                self.sub.transient.insert((me, k), v);
            }
            0x5e => {
                let (dst, src, len) = (f.pop()?, f.pop()?, f.pop()?);
                if len.bits() > 40 {
                    return Err(Stop::Exc);
                }
                f.charge(3 + 3 * words(len.as_u64()))?;
                f.expand(&[(dst, len), (src, len)])?;
                let d = f.get(src, len);
                f.put(dst, &d);
            }
            0x56 => {
                let d = f.pop()?;
                f.charge(8)?;
                next = self.jump(f, d)?;
            }
            0x57 => {
                let (d, c) = (f.pop()?, f.pop()?);
                f.charge(10)?;
                if !c.is_zero() {
                    next = self.jump(f, d)?;
                }
            }
            0x5b => f.charge(1)?,
            0x60..=0x7f => {
                f.charge(3)?;
                let n = op as usize - 0x5f;
                f.push(U256::from_big_endian(&rc::slice(&f.m.code, f.pc + 1, n)))?;
                next += n;
            }
            0x80..=0x8f => {
                f.charge(3)?;
                let n = op as usize - 0x7f;
                if f.stack.len() < n {
                    return Err(Stop::Exc);
                }
                f.push(f.stack[f.stack.len() - n])?;
            }
            0x90..=0x9f => {
                f.charge(3)?;
                let n = op as usize - 0x8f;
                let l = f.stack.len();
                if l < n + 1 {
                    return Err(Stop::Exc);
                }
                f.stack.swap(l - 1, l - 1 - n);
            }
            0xa0..=0xa4 => {
                let n = op as usize - 0xa0;
                if f.stack.len() < n + 2 {
                    return Err(Stop::Exc);
                }
                let (at, len) = (f.pop()?, f.pop()?);
                let topics = (0..n).map(|_| H256(b32(f.stack.pop().unwrap()))).collect();
                if len.bits() > 40 {
                    return Err(Stop::Exc);
                }
                f.charge(375 + 375 * n as u64 + 8 * len.as_u64())?;
                f.expand(&[(at, len)])?;
                if f.m.is_static {
                    self.stats.ev("static violation");
                    return Err(Stop::Exc);
                }
                self.sub.logs.push(Log { addr: me, topics, data: f.get(at, len) });
            }
            0xf0 | 0xf5 => {
                let need = if op == 0xf0 { 3 } else { 4 };
                if f.stack.len() < need {
                    return Err(Stop::Exc);
                }
                let (value, at, len) = (f.pop()?, f.pop()?, f.pop()?);
                let salt = if op == 0xf5 { f.pop()? } else { zero };
                if len.bits() > 40 {
                    return Err(Stop::Exc);
                }
                let w = words(len.as_u64());
                f.charge(32000 + 2 * w + if op == 0xf5 { 6 * w } else { 0 })?;
                f.expand(&[(at, len)])?;
                if len > U256::from(2 * MAX_CODE) || f.m.is_static {
                    self.stats.ev(if f.m.is_static { "static violation" } else { "initcode too long" });
                    return Err(Stop::Exc);
                }
                f.ret = vec![];
                let init = f.get(at, len);
                let a = self.acct(me);
                if a.balance < value || a.nonce == u64::MAX || f.m.depth >= 1024 {
                    self.stats.ev("create refused");
                    f.push(zero)?;
                } else {
                    let addr = if op == 0xf0 { create_address(me, a.nonce) } else { create2_address(me, salt, &init) };
                    self.sub.warm.insert(addr);
                    let g = f.gas - f.gas / 64;
                    f.gas -= g;
                    self.world.get_mut(&me).unwrap().nonce += 1;
                    let out = self.create(me, addr, init, value, g, f.m.depth + 1);
                    f.gas += out.gas;
                    if out.halt == Halt::Ok {
                        f.push(u_of(addr))?;
                    } else {
                        f.ret = out.data;
                        f.push(zero)?;
                    }
                }
            }
            0xf1 | 0xf2 | 0xf4 | 0xfa => {
                let has_value = op == 0xf1 || op == 0xf2;
                if f.stack.len() < if has_value { 7 } else { 6 } {
                    return Err(Stop::Exc);
                }
                let gas = f.pop()?;
                let to = addr_of(f.pop()?);
                let value = if has_value { f.pop()? } else { zero };
                let (ia, il, oa, ol) = (f.pop()?, f.pop()?, f.pop()?, f.pop()?);
                f.expand(&[(ia, il), (oa, ol)])?;
                self.account_access(f, to)?;
                let mut extra = 0;
                if has_value && !value.is_zero() {
                    extra += 9000;
                    if op == 0xf1 && self.world.get(&to).map_or(true, |a| a.empty()) {
                        extra += 25000;
                    }
                }
                f.charge(extra)?;
                let cap = f.gas - f.gas / 64;
                let mut g = if gas > cap.into() { cap } else { gas.as_u64() };
                f.charge(g)?;
                if f.m.is_static && op == 0xf1 && !value.is_zero() {
                    self.stats.ev("static violation");
                    return Err(Stop::Exc);
                }
                if has_value && !value.is_zero() {
                    g += 2300;
                }
                f.ret = vec![];
                if self.balance(me) < value || f.m.depth >= 1024 {
                    self.stats.ev(if f.m.depth >= 1024 { "call too deep" } else { "call without balance" });
                    f.gas += g;
                    f.push(zero)?;
                } else {
                    let m = Msg {
                        target: if op == 0xf1 || op == 0xfa { to } else { me },
                        caller: if op == 0xf4 { f.m.caller } else { me },
                        code: self.acct(to).code,
                        data: f.get(ia, il),
                        value: if op == 0xf4 { f.m.value } else { value },
                        gas: g,
                        is_static: f.m.is_static || op == 0xfa,
                        depth: f.m.depth + 1,
                    };
                    self.stats.ev("message call");
                    let out = self.call(m, to, op == 0xf1);
                    f.gas += out.gas;
                    f.push(((out.halt == Halt::Ok) as u8).into())?;
                    let n = ol.min(out.data.len().into());
                    f.put(oa, &out.data[..n.as_usize()]);
                    f.ret = out.data;
                }
            }
            0xf3 | 0xfd => {
                let (at, len) = (f.pop()?, f.pop()?);
                f.expand(&[(at, len)])?;
                let d = f.get(at, len);
                return Err(Stop::Halt(if op == 0xf3 { Halt::Ok } else { Halt::Revert }, d));
            }
            0xff => {
                let to = addr_of(f.pop()?);
                let bal = self.balance(me);
                let mut c = 5000;
                if !self.sub.warm.contains(&to) {
                    c += 2600;
                }
                if !bal.is_zero() && self.world.get(&to).map_or(true, |a| a.empty()) {
                    c += 25000;
                }
                f.charge(c)?;
                self.sub.warm.insert(to);
                if f.m.is_static {
                    self.stats.ev("static violation");
                    return Err(Stop::Exc);
                }
                self.sub_bal(me, bal);
                self.add(to, bal);
                if self.sub.created.contains(&me) {
                    self.stats.ev("selfdestruct in the creating transaction");
                    self.world.get_mut(&me).unwrap().balance = zero;
                    self.sub.destroyed.insert(me);
                } else {
                    self.stats.ev("selfdestruct of an older contract");
                }
                return Err(Stop::Halt(Halt::Ok, vec![]));
            }
            _ => {
                return Err(Stop::Exc);
            }
        }
        f.pc = next;
        Ok(())
    }

    fn jump(&mut self, f: &Frame, d: U256) -> S<usize> {
        if d < f.m.code.len().into() && f.dests.contains(&d.as_usize()) {
            Ok(d.as_usize())
        } else {
            self.stats.ev("bad jump");
            Err(Stop::Exc)
        }
    }
}

pub fn intrinsic(tx: &Tx) -> u64 {
    let mut g = 21000 + tx.data.iter().map(|&b| if b == 0 { 4 } else { 16 }).sum::<u64>();
    if tx.to.is_none() {
        g += 32000 + 2 * words(tx.data.len() as u64);
    }
    g + tx.access_list.iter().map(|(_, s)| 2400 + 1900 * s.len() as u64).sum::<u64>()
}

fn refuse(stats: &mut Stats, why: &'static str) -> Result<(), &'static str> {
    if stats.force == why {
        stats.forced = true;
        return Ok(());
    }
    Err(why)
}
/// Err: the transaction is not valid, and may not be in a block.
pub fn apply_tx(
    world: &mut World,
    env: &Env,
    tx: &Tx,
    gas_left_in_block: u64,
    stats: &mut Stats,
    kzg_known: &(dyn Fn(&[u8]) -> Option<bool> + Sync),
) -> Result<Receipt, &'static str> {
    let ig = intrinsic(tx);
    let s = world.get(&tx.sender).cloned().unwrap_or_default();
    let blob_gas = U256::from(131072 * tx.blob_hashes.len());
    if tx.gas < ig {
        refuse(stats, "intrinsic gas")?;
    }
    if tx.gas > gas_left_in_block {
        refuse(stats, "block gas limit")?;
    }
    if tx.max_fee < env.base_fee || tx.max_fee < tx.max_prio {
        refuse(stats, "fee")?;
    }
    if tx.nonce != s.nonce || s.nonce == u64::MAX {
        refuse(stats, "nonce")?;
    }
    if !s.code.is_empty() {
        refuse(stats, "sender has code")?;
    }
    if tx.to.is_none() && tx.data.len() > 2 * MAX_CODE {
        refuse(stats, "initcode too long")?;
    }
    let max = tx.max_fee.full_mul(tx.gas.into()) + U512::from(tx.value) + tx.max_blob_fee.full_mul(blob_gas);
    if U512::from(s.balance) < max {
        refuse(stats, "balance")?;
    }
    if tx.ty == 3 && (tx.blob_hashes.is_empty() || tx.to.is_none() || tx.max_blob_fee < env.blob_base_fee()) {
        refuse(stats, "blob")?;
    }
    let prio = if tx.max_fee < env.base_fee { U256::zero() } else { tx.max_prio.min(tx.max_fee - env.base_fee) };
    let price = (prio + env.base_fee).min(tx.max_fee);
    let mut vm = Vm {
        world: std::mem::take(world),
        original: World::new(),
        env,
        origin: tx.sender,
        gas_price: price,
        blob_hashes: tx.blob_hashes.clone(),
        sub: Sub::default(),
        stats: std::mem::take(stats),
        kzg_known,
    };
    {
        let a = vm.world.get_mut(&tx.sender).unwrap();
        a.balance -= price * tx.gas + if tx.ty == 3 { env.blob_base_fee() * blob_gas } else { U256::zero() };
        a.nonce += 1;
    }
    vm.original = vm.world.clone();
    vm.stats.touched = [tx.sender, env.coinbase, tx.to.unwrap_or_else(|| create_address(tx.sender, tx.nonce))].into();
    vm.stats.slots.clear();
    vm.stats.suicides.clear();
    vm.stats.code_read = tx.to.into_iter().collect();
    vm.stats.tried = if tx.to.is_none() { [create_address(tx.sender, tx.nonce)].into() } else { BTreeSet::new() };
    vm.warm(tx.sender);
    vm.warm(env.coinbase);
    for i in 1..=10u64 {
        vm.warm(Address::from_low_u64_be(i));
    }
    for (a, ss) in &tx.access_list {
        vm.warm(*a);
        for k in ss {
            vm.sub.warm_slots.insert((*a, *k));
        }
    }
    let gas = tx.gas.saturating_sub(ig);
    let out = match tx.to {
        None => {
            let addr = create_address(tx.sender, tx.nonce);
            vm.warm(addr);
            vm.create(tx.sender, addr, tx.data.clone(), tx.value, gas, 0)
        }
        Some(to) => {
            vm.warm(to);
            let m = Msg {
                target: to,
                caller: tx.sender,
                code: vm.acct(to).code,
                data: tx.data.clone(),
                value: tx.value,
                gas,
                is_static: false,
                depth: 0,
            };
            vm.call(m, to, true)
        }
    };
    let ok = out.halt == Halt::Ok;
    let used = tx.gas - out.gas;
    let refund = if ok { vm.sub.refund.max(0) as u64 } else { 0 };
    let refund = refund.min(used / 5);
    if refund > 0 {
        vm.stats.ev("refund");
    }
    let used = used - refund;
    vm.add(tx.sender, price * (tx.gas - used));
    vm.add(env.coinbase, prio * used);
    for a in std::mem::take(&mut vm.sub.destroyed) {
        vm.world.remove(&a);
    }
    vm.prune_empty();
    let logs = if ok { vm.sub.logs.clone() } else { vec![] };
    vm.stats.ev(if ok { "transaction succeeded" } else { "transaction failed" });
    *world = vm.world;
    *stats = vm.stats;
    Ok(Receipt { success: ok, gas_used: used, logs })
}

pub fn beacon_address() -> Address {
    Address::from_slice(&rc::be(&rc::hexn("000F3df6D732807Ef1319fB7B8bB8522d0Beac02"), 20))
}
/// EIP-4788, at the start of a block.
pub fn beacon_update(world: &mut World, env: &Env) {
    let i = env.timestamp % 8191;
    let st = &mut world.entry(beacon_address()).or_default().storage;
    for (k, v) in [(i, env.timestamp), (i + 8191, U256::from_big_endian(&env.parent_root.0))] {
        if v.is_zero() {
            st.remove(&k);
        } else {
            st.insert(k, v);
        }
    }
}

pub type Kzg<'a> = &'a (dyn Fn(&[u8]) -> Option<bool> + Sync);
pub fn run_precompile(stats: &mut Stats, kzg: Kzg, a: Address, data: &[u8], gas: u64) -> Option<Out> {
        let n = u_of(a);
        if n.is_zero() || n > 10.into() {
            return None;
        }
        let fail = Out { halt: Halt::Exc, gas: 0, data: vec![] };
        let w = words(data.len() as u64);
        let n = n.as_u64();
        let (cost, out): (u64, Option<Vec<u8>>) = match n {
            1 => (3000, Some(rc::ecrecover(data))),
            2 => (60 + 12 * w, {
                use sha2::Digest;
                Some(sha2::Sha256::digest(data).to_vec())
            }),
            3 => (600 + 120 * w, {
                use ripemd::Digest;
                let mut o = vec![0; 12];
                o.extend(ripemd::Ripemd160::digest(data));
                Some(o)
            }),
            4 => (15 + 3 * w, Some(data.to_vec())),
            5 => match rc::modexp(data) {
                (None, _) => return Some(fail),
                (Some(g), o) => (g, Some(o)),
            },
            6 => (150, rc::bn_add(data)),
            7 => (6000, rc::bn_mul(data)),
            8 => (45000 + 34000 * (data.len() as u64 / 192), rc::bn_pairing(data)),
            9 => {
                if data.len() != 213 || data[212] > 1 {
                    return Some(fail);
                }
                let g = u32::from_be_bytes(data[..4].try_into().unwrap()) as u64;
                if g > gas {
                    return Some(fail);
                }
                (g, rc::blake2f(data))
            }
            _ => (50000, rc::kzg(data, kzg)),
        };
        const NAMES: [&str; 10] = [
            "ecrecover", "sha256", "ripemd160", "identity", "modexp", "bn_add", "bn_mul", "bn_pairing", "blake2f", "kzg",
        ];
        if cost > gas {
            stats.ev("precompile out of gas");
            return Some(fail);
        }
        match out {
            Some(o) => {
                stats.ev(NAMES[n as usize - 1]);
                Some(Out { halt: Halt::Ok, gas: gas - cost, data: o })
            }
            None => {
                stats.ev("precompile failure");
                Some(fail)
            }
        }
    }

