//! Reference precompiles: written from the specifications, over BigUint, and
//! sharing nothing with the code under test.
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::sync::OnceLock;

pub fn big(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}
pub fn be(x: &BigUint, n: usize) -> Vec<u8> {
    let b = x.to_bytes_be();
    let mut v = vec![0; n.saturating_sub(b.len())];
    v.extend(if b == [0] && n == 0 { vec![] } else { b });
    if v.len() > n {
        v[v.len() - n..].to_vec()
    } else {
        v
    }
}
fn dec(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}
pub fn hexn(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

// ---------------------------------------------------------------- ECDSA
pub fn ecrecover(input: &[u8]) -> Vec<u8> {
    use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
    let mut b = input.to_vec();
    b.resize(128, 0);
    if b[32..63].iter().any(|&x| x != 0) || !(b[63] == 27 || b[63] == 28) {
        return vec![];
    }
    let Ok(sig) = Signature::from_slice(&b[64..128]) else { return vec![] };
    // k256 refuses high-s on recovery in some versions: normalise by hand.
    let (sig, flip) = match sig.normalize_s() {
        Some(s) => (s, 1),
        None => (sig, 0),
    };
    let Some(id) = RecoveryId::from_byte((b[63] - 27) ^ flip) else { return vec![] };
    let Ok(k) = VerifyingKey::recover_from_prehash(&b[..32], &sig, id) else { return vec![] };
    let p = k.to_encoded_point(false);
    let mut out = vec![0; 12];
    out.extend(&keccak_hash::keccak(&p.as_bytes()[1..]).0[12..]);
    out
}
pub struct Key {
    pub sk: k256::ecdsa::SigningKey,
    pub addr: ethereum_types::Address,
}
impl Key {
    pub fn new(i: u64) -> Key {
        let mut b = [0u8; 32];
        b[24..].copy_from_slice(&(i + 1).to_be_bytes());
        b[3] = 0x5a;
        let sk = k256::ecdsa::SigningKey::from_slice(&b).unwrap();
        let p = sk.verifying_key().to_encoded_point(false);
        let addr = ethereum_types::H160::from_slice(&keccak_hash::keccak(&p.as_bytes()[1..]).0[12..]);
        Key { sk, addr }
    }
    /// (y parity, r, s)
    pub fn sign(&self, hash: &[u8; 32]) -> (u8, [u8; 32], [u8; 32]) {
        let (s, id) = self.sk.sign_prehash_recoverable(hash).unwrap();
        let b = s.to_bytes();
        (id.to_byte() & 1, b[..32].try_into().unwrap(), b[32..].try_into().unwrap())
    }
}

// ---------------------------------------------------------------- BN254
pub struct Bn {
    pub p: BigUint,
    pub r: BigUint,
}
pub fn bn() -> &'static Bn {
    static B: OnceLock<Bn> = OnceLock::new();
    B.get_or_init(|| Bn {
        p: dec("21888242871839275222246405745257275088696311157297823662689037894645226208583"),
        r: dec("21888242871839275222246405745257275088548364400416034343698204186575808495617"),
    })
}
pub fn inv(x: &BigUint, p: &BigUint) -> BigUint {
    x.modpow(&(p - 2u8), p)
}
pub type P1 = Option<(BigUint, BigUint)>;
pub fn g1_add(a: &P1, b: &P1, p: &BigUint) -> P1 {
    let (Some((x1, y1)), Some((x2, y2))) = (a, b) else {
        return if a.is_none() { b.clone() } else { a.clone() };
    };
    let l = if x1 == x2 {
        if (y1 + y2) % p == BigUint::zero() {
            return None;
        }
        x1 * x1 * 3u8 * inv(&(y1 * 2u8 % p), p) % p
    } else {
        (y2 + p - y1) * inv(&((x2 + p - x1) % p), p) % p
    };
    let x3 = (&l * &l + p * 2u8 - x1 - x2) % p;
    let y3 = (&l * ((x1 + p - &x3) % p) + p - y1) % p;
    Some((x3, y3))
}
pub fn g1_mul(a: &P1, k: &BigUint, p: &BigUint) -> P1 {
    let mut r = None;
    for i in (0..k.bits()).rev() {
        r = g1_add(&r, &r, p);
        if k.bit(i) {
            r = g1_add(&r, a, p);
        }
    }
    r
}
pub fn g1_parse(b: &[u8]) -> Option<P1> {
    let (x, y) = (big(&b[..32]), big(&b[32..64]));
    let p = &bn().p;
    if x >= *p || y >= *p {
        return None;
    }
    if x.is_zero() && y.is_zero() {
        return Some(None);
    }
    (&y * &y % p == (&x * &x * &x + 3u8) % p).then_some(Some((x, y)))
}
pub fn g1_bytes(a: &P1) -> Vec<u8> {
    match a {
        None => vec![0; 64],
        Some((x, y)) => [be(x, 32), be(y, 32)].concat(),
    }
}
pub fn bn_add(input: &[u8]) -> Option<Vec<u8>> {
    let mut b = input.to_vec();
    b.resize(128, 0);
    let (x, y) = (g1_parse(&b[..64])?, g1_parse(&b[64..])?);
    Some(g1_bytes(&g1_add(&x, &y, &bn().p)))
}
pub fn bn_mul(input: &[u8]) -> Option<Vec<u8>> {
    let mut b = input.to_vec();
    b.resize(96, 0);
    Some(g1_bytes(&g1_mul(&g1_parse(&b[..64])?, &big(&b[64..]), &bn().p)))
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct F2(pub BigUint, pub BigUint); // re, im with i^2 = -1
impl F2 {
    pub fn add(&self, o: &F2, p: &BigUint) -> F2 {
        F2((&self.0 + &o.0) % p, (&self.1 + &o.1) % p)
    }
    pub fn sub(&self, o: &F2, p: &BigUint) -> F2 {
        F2((&self.0 + p - &o.0) % p, (&self.1 + p - &o.1) % p)
    }
    pub fn mul(&self, o: &F2, p: &BigUint) -> F2 {
        F2(
            (&self.0 * &o.0 + p * p - &self.1 * &o.1) % p,
            (&self.0 * &o.1 + &self.1 * &o.0) % p,
        )
    }
    pub fn inv(&self, p: &BigUint) -> F2 {
        let n = inv(&((&self.0 * &self.0 + &self.1 * &self.1) % p), p);
        F2(&self.0 * &n % p, (p - &self.1) % p * &n % p)
    }
    pub fn zero() -> F2 {
        F2(BigUint::zero(), BigUint::zero())
    }
}
pub type P2 = Option<(F2, F2)>;
pub fn g2_add(a: &P2, b: &P2, p: &BigUint) -> P2 {
    let (Some((x1, y1)), Some((x2, y2))) = (a, b) else {
        return if a.is_none() { b.clone() } else { a.clone() };
    };
    let l = if x1 == x2 {
        if y1.add(y2, p) == F2::zero() {
            return None;
        }
        let xx = x1.mul(x1, p);
        xx.add(&xx, p).add(&xx, p).mul(&y1.add(y1, p).inv(p), p)
    } else {
        y2.sub(y1, p).mul(&x2.sub(x1, p).inv(p), p)
    };
    let x3 = l.mul(&l, p).sub(x1, p).sub(x2, p);
    let y3 = l.mul(&x1.sub(&x3, p), p).sub(y1, p);
    Some((x3, y3))
}
pub fn g2_mul(a: &P2, k: &BigUint, p: &BigUint) -> P2 {
    let mut r = None;
    for i in (0..k.bits()).rev() {
        r = g2_add(&r, &r, p);
        if k.bit(i) {
            r = g2_add(&r, a, p);
        }
    }
    r
}
pub fn g2_gen() -> P2 {
    Some((
        F2(
            dec("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
            dec("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
        ),
        F2(
            dec("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
            dec("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
        ),
    ))
}
pub fn g2_bytes(a: &P2) -> Vec<u8> {
    match a {
        None => vec![0; 128],
        Some((x, y)) => [be(&x.1, 32), be(&x.0, 32), be(&y.1, 32), be(&y.0, 32)].concat(),
    }
}
pub fn g2_parse(b: &[u8]) -> Option<P2> {
    let p = &bn().p;
    let c: Vec<BigUint> = (0..4).map(|i| big(&b[32 * i..32 * i + 32])).collect();
    if c.iter().any(|x| x >= p) {
        return None;
    }
    if c.iter().all(|x| x.is_zero()) {
        return Some(None);
    }
    let x = F2(c[1].clone(), c[0].clone());
    let y = F2(c[3].clone(), c[2].clone());
    // b' = 3 / (9 + i)
    let b2 = F2(BigUint::from(9u8), BigUint::one()).inv(p);
    let b2 = b2.add(&b2, p).add(&b2, p);
    if y.mul(&y, p) != x.mul(&x, p).mul(&x, p).add(&b2, p) {
        return None;
    }
    let q = Some((x, y));
    g2_mul(&q, &bn().r, p).is_none().then_some(q)
}
pub const SCALARS: u64 = 12;
/// Multiples k*G1 and k*G2 for k in 0..SCALARS (and their negations), whose
/// discrete logarithms are known, so that the answer of a pairing product is.
pub fn tables() -> &'static (Vec<(BigUint, Vec<u8>)>, Vec<(BigUint, Vec<u8>)>) {
    static T: OnceLock<(Vec<(BigUint, Vec<u8>)>, Vec<(BigUint, Vec<u8>)>)> = OnceLock::new();
    T.get_or_init(|| {
        let bn = bn();
        let g = Some((BigUint::one(), BigUint::from(2u8)));
        let ks: Vec<BigUint> = (0..SCALARS)
            .map(BigUint::from)
            .chain((1..SCALARS).map(|k| &bn.r - k))
            .chain([hexn("123456789abcdef0fedcba987654321000112233445566778899aabbccddeeff")])
            .collect();
        (
            ks.iter().map(|k| (k.clone(), g1_bytes(&g1_mul(&g, k, &bn.p)))).collect(),
            ks.iter().map(|k| (k.clone(), g2_bytes(&g2_mul(&g2_gen(), k, &bn.p)))).collect(),
        )
    })
}
/// None: failure. The points must come from `tables` or be invalid.
pub fn bn_pairing(input: &[u8]) -> Option<Vec<u8>> {
    if input.len() % 192 != 0 {
        return None;
    }
    let mut sum = BigUint::zero();
    let mut unknown = false;
    for c in input.chunks(192) {
        let (t1, t2) = tables();
        let a = t1.iter().find(|x| x.1 == c[..64]).map(|x| x.0.clone());
        let b = t2.iter().find(|x| x.1 == c[64..]).map(|x| x.0.clone());
        if a.is_none() {
            g1_parse(&c[..64])?;
        }
        if b.is_none() {
            g2_parse(&c[64..])?;
        }
        match (a, b) {
            (Some(a), Some(b)) => sum += a * b,
            _ => unknown = true,
        }
    }
    assert!(!unknown, "harness: pairing of a valid point with unknown logarithm");
    Some(be(&BigUint::from((sum % &bn().r).is_zero() as u8), 32))
}

// ---------------------------------------------------------------- MODEXP
fn word(b: &[u8], at: usize) -> BigUint {
    big(&slice(b, at, 32))
}
pub fn slice(b: &[u8], at: usize, n: usize) -> Vec<u8> {
    (at..at.saturating_add(n)).map(|i| b.get(i).copied().unwrap_or(0)).collect()
}
/// EIP-2565. None in the gas: larger than any gas limit here.
pub fn modexp(input: &[u8]) -> (Option<u64>, Vec<u8>) {
    let (bl, el, ml) = (word(input, 0), word(input, 32), word(input, 64));
    let lim = BigUint::from(1u32 << 20);
    let max = if bl > ml { bl.clone() } else { ml.clone() };
    if bl.is_zero() && ml.is_zero() {
        // base and modulus empty: only the exponent length matters for gas, times 0
        return (Some(200), vec![]);
    }
    let w = (&max + 7u8) / 8u8;
    let complexity = &w * &w;
    let iter: BigUint = if el <= BigUint::from(32u8) {
        let n: u64 = el.clone().try_into().unwrap();
        let e = if bl < lim {
            big(&slice(input, 96 + u64::try_from(bl.clone()).unwrap() as usize, n as usize))
        } else {
            BigUint::zero()
        };
        if e.is_zero() { BigUint::zero() } else { BigUint::from(e.bits() - 1) }
    } else {
        let head = if bl < lim {
            big(&slice(input, 96 + u64::try_from(bl.clone()).unwrap() as usize, 32))
        } else {
            BigUint::zero()
        };
        (&el - 32u8) * 8u8 + if head.is_zero() { 0 } else { head.bits() - 1 }
    };
    let iter = if iter.is_zero() { BigUint::one() } else { iter };
    let gas = complexity * iter / 3u8;
    let gas = if gas < BigUint::from(200u8) { BigUint::from(200u8) } else { gas };
    let Ok(gas) = u64::try_from(gas) else { return (None, vec![]) };
    if gas > 50_000_000 || bl > lim || el > lim || ml > lim {
        return (None, vec![]);
    }
    let (bl, el, ml): (u64, u64, u64) = (bl.try_into().unwrap(), el.try_into().unwrap(), ml.try_into().unwrap());
    let (bl, el, ml) = (bl as usize, el as usize, ml as usize);
    let b = big(&slice(input, 96, bl));
    let e = big(&slice(input, 96 + bl, el));
    let m = big(&slice(input, 96 + bl + el, ml));
    let r = if m.is_zero() || m.is_one() { BigUint::zero() } else { b.modpow(&e, &m) };
    (Some(gas), be(&r, ml))
}

// ---------------------------------------------------------------- BLAKE2b F
pub fn blake2f(input: &[u8]) -> Option<Vec<u8>> {
    if input.len() != 213 || input[212] > 1 {
        return None;
    }
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
        0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const S: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let rounds = u32::from_be_bytes(input[..4].try_into().unwrap());
    let le = |at: usize| u64::from_le_bytes(input[at..at + 8].try_into().unwrap());
    let mut h: Vec<u64> = (0..8).map(|i| le(4 + 8 * i)).collect();
    let m: Vec<u64> = (0..16).map(|i| le(68 + 8 * i)).collect();
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(&h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= le(196);
    v[13] ^= le(204);
    if input[212] == 1 {
        v[14] = !v[14];
    }
    fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    }
    for r in 0..rounds as usize {
        let s = &S[r % 10];
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
    Some(h.iter().flat_map(|x| x.to_le_bytes()).collect())
}

// ---------------------------------------------------------------- KZG
pub struct Bls {
    pub p: BigUint,
    pub r: BigUint,
    pub g: P1,
}
pub fn bls() -> &'static Bls {
    static B: OnceLock<Bls> = OnceLock::new();
    B.get_or_init(|| Bls {
        p: hexn("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab"),
        r: hexn("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"),
        g: Some((
            hexn("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
            hexn("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"),
        )),
    })
}
pub fn bls_compress(a: &P1) -> [u8; 48] {
    let mut out = [0u8; 48];
    match a {
        None => out[0] = 0xc0,
        Some((x, y)) => {
            out.copy_from_slice(&be(x, 48));
            out[0] |= 0x80;
            if y * 2u8 > bls().p {
                out[0] |= 0x20;
            }
        }
    }
    out
}
/// None if it is not the encoding of a point of the subgroup.
pub fn bls_decompress(b: &[u8]) -> Option<P1> {
    let c = bls();
    if b[0] & 0x80 == 0 {
        return None;
    }
    if b[0] & 0x40 != 0 {
        return (b[0] == 0xc0 && b[1..].iter().all(|&x| x == 0)).then_some(None);
    }
    let mut x = b.to_vec();
    x[0] &= 0x1f;
    let x = big(&x);
    if x >= c.p {
        return None;
    }
    let yy = (&x * &x * &x + 4u8) % &c.p;
    let y = yy.modpow(&((&c.p + 1u8) / 4u8), &c.p);
    if &y * &y % &c.p != yy {
        return None;
    }
    let y = if (&y * 2u8 > c.p) != (b[0] & 0x20 != 0) { &c.p - y } else { y };
    let a = Some((x, y));
    g1_mul(&a, &c.r, &c.p).is_none().then_some(a)
}
/// Answers by construction of the input.
pub static KZG_KNOWN: std::sync::LazyLock<std::sync::Mutex<std::collections::HashMap<Vec<u8>, bool>>> =
    std::sync::LazyLock::new(Default::default);
pub fn kzg_versioned_hash(comm: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    let mut h: [u8; 32] = sha2::Sha256::digest(comm).into();
    h[0] = 1;
    h
}
/// Point evaluation, decided for the inputs whose answer does not need a
/// pairing: malformed ones, and commitments to constant polynomials opened
/// with the point at infinity. Otherwise `known` tells the answer.
pub fn kzg(input: &[u8], known: &dyn Fn(&[u8]) -> Option<bool>) -> Option<Vec<u8>> {
    if input.len() != 192 {
        return None;
    }
    let c = bls();
    let (vh, z, y, comm, proof) = (&input[..32], &input[32..64], &input[64..96], &input[96..144], &input[144..]);
    if kzg_versioned_hash(comm) != vh || big(z) >= c.r || big(y) >= c.r {
        return None;
    }
    let cp = bls_decompress(comm)?;
    let pp = bls_decompress(proof)?;
    let ok = match known(input).or_else(|| KZG_KNOWN.lock().unwrap().get(input).copied()) {
        Some(ok) => ok,
        None => {
            assert!(pp.is_none(), "harness: KZG proof whose answer is not known");
            // e(C - yG, H) = 1 iff C = yG
            cp == g1_mul(&c.g, &big(y), &c.p)
        }
    };
    ok.then(|| [be(&BigUint::from(4096u32), 32), be(&c.r, 32)].concat())
}
