//! The constraint system of the code under test, as seen from outside: its
//! constraints one by one with their derivatives, its lookups, and its
//! cross-table lookups.
use std::cell::{Cell, RefCell};
use std::iter::{Product, Sum};
use std::ops::*;

use evm_arithmetization::verif_hooks as hooks;
use evm_arithmetization::AllStark;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::packed::PackedField;
use plonky2::field::types::{Field, PrimeField64};
use starky::constraint_consumer::ConstraintConsumer;

pub const TABLES: usize = 9;
pub const TABLE_NAMES: [&str; 9] = ["Arithmetic", "BytePacking", "Cpu", "Keccak", "KeccakSponge", "Logic", "Memory", "MemBefore", "MemAfter"];
pub type All = AllStark<F, 2>;

thread_local! {
    static PENDING: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Vec<Dual>> = const { RefCell::new(vec![]) };
}
/// Never used by the code under test: marks `acc *= alpha` of the consumer.
const SENTINEL: F = F(0x1357_9bdf_0246_8ace);

/// A value and its derivative in one direction.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
#[repr(C)]
pub struct Dual {
    pub v: F,
    pub d: F,
}
impl Dual {
    pub const fn new(v: F) -> Self {
        Dual { v, d: F(0) }
    }
}
impl From<F> for Dual {
    fn from(v: F) -> Self {
        Dual::new(v)
    }
}
impl Add for Dual {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Dual { v: self.v + o.v, d: self.d + o.d }
    }
}
impl Sub for Dual {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Dual { v: self.v - o.v, d: self.d - o.d }
    }
}
impl Mul for Dual {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Dual { v: self.v * o.v, d: self.v * o.d + self.d * o.v }
    }
}
impl Add<F> for Dual {
    type Output = Self;
    fn add(self, o: F) -> Self {
        Dual { v: self.v + o, d: self.d }
    }
}
impl Sub<F> for Dual {
    type Output = Self;
    fn sub(self, o: F) -> Self {
        Dual { v: self.v - o, d: self.d }
    }
}
impl Mul<F> for Dual {
    type Output = Self;
    fn mul(self, o: F) -> Self {
        Dual { v: self.v * o, d: self.d * o }
    }
}
impl Div<F> for Dual {
    type Output = Self;
    fn div(self, o: F) -> Self {
        self * o.inverse()
    }
}
impl Add<Dual> for F {
    type Output = Dual;
    fn add(self, o: Dual) -> Dual {
        o + self
    }
}
impl Sub<Dual> for F {
    type Output = Dual;
    fn sub(self, o: Dual) -> Dual {
        -o + self
    }
}
impl Mul<Dual> for F {
    type Output = Dual;
    fn mul(self, o: Dual) -> Dual {
        o * self
    }
}
impl Neg for Dual {
    type Output = Self;
    fn neg(self) -> Self {
        Dual { v: -self.v, d: -self.d }
    }
}
impl AddAssign for Dual {
    fn add_assign(&mut self, o: Self) {
        if PENDING.with(|p| p.replace(false)) {
            LOG.with(|l| l.borrow_mut().push(o));
            return;
        }
        *self = *self + o;
    }
}
impl AddAssign<F> for Dual {
    fn add_assign(&mut self, o: F) {
        *self = *self + o;
    }
}
impl SubAssign for Dual {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o;
    }
}
impl SubAssign<F> for Dual {
    fn sub_assign(&mut self, o: F) {
        *self = *self - o;
    }
}
impl MulAssign for Dual {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o;
    }
}
impl MulAssign<F> for Dual {
    fn mul_assign(&mut self, o: F) {
        if o.0 == SENTINEL.0 {
            PENDING.with(|p| p.set(true));
            return;
        }
        *self = *self * o;
    }
}
impl Sum for Dual {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Dual::ZEROS, |a, b| a + b)
    }
}
impl Product for Dual {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Dual::ONES, |a, b| a * b)
    }
}
unsafe impl PackedField for Dual {
    type Scalar = F;
    const WIDTH: usize = 1;
    const ZEROS: Self = Dual::new(F(0));
    const ONES: Self = Dual::new(F(1));
    fn from_slice(_: &[F]) -> &Self {
        panic!("harness: from_slice")
    }
    fn from_slice_mut(_: &mut [F]) -> &mut Self {
        panic!("harness: from_slice_mut")
    }
    fn as_slice(&self) -> &[F] {
        std::slice::from_ref(&self.v)
    }
    fn as_slice_mut(&mut self) -> &mut [F] {
        panic!("harness: as_slice_mut")
    }
    fn interleave(&self, o: Self, _: usize) -> (Self, Self) {
        (*self, o)
    }
}

/// Where a pair of rows is.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct At {
    pub first: bool,
    pub last: bool,
}
impl At {
    fn consumer<P: PackedField<Scalar = F>>(self, alpha: F) -> ConstraintConsumer<P>
    where
        F: Add<P, Output = P> + Mul<P, Output = P> + Sub<P, Output = P>,
    {
        let b = |x: bool| P::from(F::from_bool(x));
        ConstraintConsumer::new(vec![alpha], b(!self.last), b(self.first), b(self.last))
    }
}

/// Values and derivatives of the single constraints.
pub fn constraints(all: &All, t: usize, local: &[Dual], next: &[Dual], at: At) -> Vec<Dual> {
    LOG.with(|l| l.borrow_mut().clear());
    PENDING.with(|p| p.set(false));
    let mut c = at.consumer::<Dual>(SENTINEL);
    hooks::eval(all, t, local, next, &mut c);
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// Do two rows satisfy all constraints? (A random combination of them.)
pub fn satisfied(all: &All, t: usize, local: &[F], next: &[F], at: At) -> bool {
    let mut c = at.consumer::<F>(F(0x0123_4567_89ab_cdef));
    hooks::eval(all, t, local, next, &mut c);
    c.accumulators()[0] == F::ZERO
}
/// The derivatives of the constraints by each cell of both rows: one sparse
/// row (by cell) per constraint.
pub fn jacobian(all: &All, t: usize, local: &[F], next: &[F], at: At) -> Vec<Vec<(usize, F)>> {
    let n = local.len();
    let mut l: Vec<Dual> = local.iter().map(|&x| Dual::new(x)).collect();
    let mut m: Vec<Dual> = next.iter().map(|&x| Dual::new(x)).collect();
    let mut out: Vec<Vec<(usize, F)>> = vec![];
    for i in 0..2 * n {
        if i < n {
            l[i].d = F::ONE;
        } else {
            m[i - n].d = F::ONE;
        }
        let c = constraints(all, t, &l, &m, at);
        out.resize(c.len(), vec![]);
        for (k, x) in c.iter().enumerate() {
            if x.d != F::ZERO {
                out[k].push((i, x.d));
            }
        }
        if i < n {
            l[i].d = F::ZERO;
        } else {
            m[i - n].d = F::ZERO;
        }
    }
    out
}

/// A linear form in the cells of two rows.
#[derive(Clone, Debug, Default)]
pub struct Form {
    pub terms: Vec<(usize, F)>,
    pub next: Vec<(usize, F)>,
    pub constant: F,
}
impl Form {
    pub fn eval(&self, local: &[F], next: &[F]) -> F {
        self.terms.iter().map(|&(i, k)| local[i] * k).sum::<F>() + self.next.iter().map(|&(i, k)| next[i] * k).sum::<F>() + self.constant
    }
    pub fn row(&self, n: usize) -> Vec<(usize, F)> {
        let mut v: Vec<_> = self.terms.clone();
        v.extend(self.next.iter().map(|&(i, k)| (n + i, k)));
        merge(v)
    }
}
pub fn merge(mut v: Vec<(usize, F)>) -> Vec<(usize, F)> {
    v.sort_by_key(|x| x.0);
    let mut o: Vec<(usize, F)> = vec![];
    for (i, k) in v {
        match o.last_mut() {
            Some(l) if l.0 == i => l.1 += k,
            _ => o.push((i, k)),
        }
    }
    o.retain(|x| x.1 != F::ZERO);
    o
}
#[derive(Clone, Debug, Default)]
pub struct FilterForm {
    pub products: Vec<(Form, Form)>,
    pub constants: Vec<Form>,
}
impl FilterForm {
    pub fn eval(&self, local: &[F], next: &[F]) -> F {
        self.products.iter().map(|(a, b)| a.eval(local, next) * b.eval(local, next)).sum::<F>() + self.constants.iter().map(|c| c.eval(local, next)).sum::<F>()
    }
}
#[derive(Clone, Debug)]
pub struct Side {
    pub table: usize,
    pub columns: Vec<Form>,
    pub filter: FilterForm,
}
#[derive(Clone, Debug)]
pub struct Ctl {
    pub looking: Vec<Side>,
    pub looked: Side,
}
#[derive(Clone, Debug)]
pub struct Look {
    pub columns: Vec<Form>,
    pub filters: Vec<FilterForm>,
    pub table: Form,
    pub freq: Form,
}

// --- reading them from their debug output (their fields are private) ---
#[derive(Debug, Clone)]
enum T {
    Num(u64),
    List(Vec<T>),
    Rec(Vec<(String, T)>),
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn skip(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b',') {
            self.i += 1;
        }
    }
    fn value(&mut self) -> T {
        self.skip();
        let c = self.s[self.i];
        if c.is_ascii_digit() {
            let j = self.i;
            while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                self.i += 1;
            }
            return T::Num(std::str::from_utf8(&self.s[j..self.i]).unwrap().parse().unwrap());
        }
        if c == b'[' || c == b'(' {
            self.i += 1;
            let mut v = vec![];
            loop {
                self.skip();
                if self.s[self.i] == b']' || self.s[self.i] == b')' {
                    self.i += 1;
                    return T::List(v);
                }
                v.push(self.value());
            }
        }
        // Name { field: value, .. } or Name(value)
        while self.s[self.i] != b'{' && self.s[self.i] != b'(' {
            self.i += 1;
        }
        if self.s[self.i] == b'(' {
            return self.value();
        }
        self.i += 1;
        let mut v = vec![];
        loop {
            self.skip();
            if self.s[self.i] == b'}' {
                self.i += 1;
                return T::Rec(v);
            }
            let j = self.i;
            while self.s[self.i] != b':' {
                self.i += 1;
            }
            let k = std::str::from_utf8(&self.s[j..self.i]).unwrap().to_string();
            self.i += 1;
            v.push((k, self.value()));
        }
    }
}
impl T {
    fn get(&self, k: &str) -> &T {
        match self {
            T::Rec(v) => &v.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("harness: no field {k}")).1,
            _ => panic!("harness: not a record"),
        }
    }
    fn list(&self) -> &[T] {
        match self {
            T::List(v) => v,
            _ => panic!("harness: not a list"),
        }
    }
    fn num(&self) -> u64 {
        match self {
            T::Num(n) => *n,
            T::List(v) if v.len() == 1 => v[0].num(),
            _ => panic!("harness: not a number"),
        }
    }
    fn terms(&self) -> Vec<(usize, F)> {
        self.list().iter().map(|x| (x.list()[0].num() as usize, F::from_canonical_u64(x.list()[1].num()))).collect()
    }
    fn form(&self) -> Form {
        Form { terms: self.get("linear_combination").terms(), next: self.get("next_row_linear_combination").terms(), constant: F::from_canonical_u64(self.get("constant").num()) }
    }
    fn filter(&self) -> FilterForm {
        FilterForm {
            products: self.get("products").list().iter().map(|x| (x.list()[0].form(), x.list()[1].form())).collect(),
            constants: self.get("constants").list().iter().map(|x| x.form()).collect(),
        }
    }
    fn side(&self) -> Side {
        Side { table: self.get("table").num() as usize, columns: self.get("columns").list().iter().map(|x| x.form()).collect(), filter: self.get("filter").filter() }
    }
}
fn parse<D: std::fmt::Debug>(d: &D) -> T {
    let s = format!("{d:?}");
    P { s: s.as_bytes(), i: 0 }.value()
}
pub fn ctls(all: &All) -> Vec<Ctl> {
    hooks::cross_table_lookups(all)
        .iter()
        .map(|c| {
            let t = parse(c);
            Ctl { looking: t.get("looking_tables").list().iter().map(|x| x.side()).collect(), looked: t.get("looked_table").side() }
        })
        .collect()
}
pub fn lookups(all: &All, t: usize) -> Vec<Look> {
    hooks::lookups(all, t)
        .iter()
        .map(|l| Look {
            columns: l.columns.iter().map(|c| parse(c).form()).collect(),
            filters: l.filter_columns.iter().map(|c| parse(c).filter()).collect(),
            table: parse(&l.table_column).form(),
            freq: parse(&l.frequencies_column).form(),
        })
        .collect()
}

/// Rank of a sparse matrix.
pub struct Basis {
    /// pivot cell -> row (normalised: leading coefficient 1)
    rows: std::collections::HashMap<usize, Vec<(usize, F)>>,
}
impl Basis {
    pub fn new() -> Self {
        Basis { rows: Default::default() }
    }
    pub fn rank(&self) -> usize {
        self.rows.len()
    }
    /// Adds a row (sorted by cell); true if it was independent.
    pub fn add(&mut self, r: &[(usize, F)]) -> bool {
        let mut r: Vec<(usize, F)> = r.to_vec();
        while let Some(&(p, k)) = r.first() {
            let Some(b) = self.rows.get(&p) else {
                let inv = k.inverse();
                for x in &mut r {
                    x.1 *= inv;
                }
                self.rows.insert(p, r);
                return true;
            };
            // r -= k * b
            let mut o = Vec::with_capacity(r.len() + b.len());
            let (mut i, mut j) = (1, 1);
            while i < r.len() || j < b.len() {
                if j == b.len() || i < r.len() && r[i].0 < b[j].0 {
                    o.push(r[i]);
                    i += 1;
                } else if i == r.len() || b[j].0 < r[i].0 {
                    o.push((b[j].0, -k * b[j].1));
                    j += 1;
                } else {
                    let x = r[i].1 - k * b[j].1;
                    if x != F::ZERO {
                        o.push((r[i].0, x));
                    }
                    i += 1;
                    j += 1;
                }
            }
            r = o;
        }
        false
    }
}
pub fn rank<'a>(rows: impl IntoIterator<Item = &'a Vec<(usize, F)>>) -> usize {
    let mut v: Vec<&Vec<_>> = rows.into_iter().collect();
    v.sort_by_key(|r| r.len());
    let mut b = Basis::new();
    for r in v {
        b.add(r);
    }
    b.rank()
}
pub fn small(x: F) -> u64 {
    x.to_canonical_u64()
}
