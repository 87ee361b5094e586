//! Stand-in for ark-ff: prime fields of up to 256 bits with the trait surface that the code
//! under check (and reasonable rewrites of it) uses. Large fields use Montgomery multiplication,
//! small ones machine arithmetic, so that one implementation serves both the exhaustive
//! explorations over tiny primes and the runs over the BN254 scalar field.
pub use ark_std::{One, UniformRand, Zero};
pub use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_serialize::{Compress, SerializationError, Valid, Validate};
use ark_std::rand::Rng;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::marker::PhantomData;
use std::ops::*;
use std::str::FromStr;

pub mod fields {
    pub use super::{FftField, Field, PrimeField};
}
pub mod biginteger { pub use super::{BigInt, BigInteger}; }

// ---------------------------------------------------------------- big integers
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct BigInt<const N: usize>(pub [u64; N]);
pub type BigInteger256 = BigInt<4>;
impl<const N: usize> BigInt<N> { pub const fn new(v: [u64; N]) -> Self { BigInt(v) } pub const fn zero() -> Self { BigInt([0; N]) } pub const fn one() -> Self { let mut a = [0; N]; a[0] = 1; BigInt(a) } }
impl<const N: usize> Default for BigInt<N> { fn default() -> Self { BigInt([0; N]) } }
impl<const N: usize> From<u64> for BigInt<N> { fn from(v: u64) -> Self { let mut a = [0; N]; a[0] = v; BigInt(a) } }
impl<const N: usize> From<u32> for BigInt<N> { fn from(v: u32) -> Self { Self::from(v as u64) } }
impl<const N: usize> AsRef<[u64]> for BigInt<N> { fn as_ref(&self) -> &[u64] { &self.0 } }
impl<const N: usize> AsMut<[u64]> for BigInt<N> { fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
impl<const N: usize> Ord for BigInt<N> {
    fn cmp(&self, o: &Self) -> Ordering { for i in (0..N).rev() { match self.0[i].cmp(&o.0[i]) { Ordering::Equal => {} x => return x } } Ordering::Equal }
}
impl<const N: usize> PartialOrd for BigInt<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const N: usize> Display for BigInt<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut v = self.0; let mut ds = Vec::new();
        loop {
            let mut r: u128 = 0; let mut nz = false;
            for i in (0..N).rev() { let cur = (r << 64) | v[i] as u128; v[i] = (cur / 10) as u64; r = cur % 10; nz |= v[i] != 0; }
            ds.push(b'0' + r as u8);
            if !nz { break; }
        }
        ds.reverse();
        f.write_str(std::str::from_utf8(&ds).unwrap())
    }
}
pub trait BigInteger: Copy + Clone + Debug + Default + Display + Eq + Ord + Send + Sync + Hash + From<u64> + AsRef<[u64]> + 'static {
    const NUM_LIMBS: usize;
    fn is_zero(&self) -> bool;
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool { !self.is_odd() }
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
    fn to_bits_le(&self) -> Vec<bool> { (0..Self::NUM_LIMBS * 64).map(|i| self.get_bit(i)).collect() }
    fn to_bits_be(&self) -> Vec<bool> { let mut v = self.to_bits_le(); v.reverse(); v }
    fn add_with_carry(&mut self, o: &Self) -> bool;
    fn sub_with_borrow(&mut self, o: &Self) -> bool;
}
impl<const N: usize> BigInteger for BigInt<N> {
    const NUM_LIMBS: usize = N;
    fn is_zero(&self) -> bool { self.0.iter().all(|x| *x == 0) }
    fn is_odd(&self) -> bool { self.0[0] & 1 == 1 }
    fn num_bits(&self) -> u32 { for i in (0..N).rev() { if self.0[i] != 0 { return i as u32 * 64 + 64 - self.0[i].leading_zeros(); } } 0 }
    fn get_bit(&self, i: usize) -> bool { i < 64 * N && (self.0[i / 64] >> (i % 64)) & 1 == 1 }
    fn to_bytes_le(&self) -> Vec<u8> { self.0.iter().flat_map(|l| l.to_le_bytes()).collect() }
    fn add_with_carry(&mut self, o: &Self) -> bool { let mut c = false; for i in 0..N { let (a, c1) = self.0[i].overflowing_add(o.0[i]); let (b, c2) = a.overflowing_add(c as u64); self.0[i] = b; c = c1 | c2; } c }
    fn sub_with_borrow(&mut self, o: &Self) -> bool { let mut c = false; for i in 0..N { let (a, c1) = self.0[i].overflowing_sub(o.0[i]); let (b, c2) = a.overflowing_sub(c as u64); self.0[i] = b; c = c1 | c2; } c }
}

// ---------------------------------------------------------------- traits
pub trait AdditiveGroup: Eq + 'static + Sized + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + Zero + Neg<Output = Self>
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + Sum<Self> + for<'a> Sum<&'a Self> + UniformRand + CanonicalSerialize + CanonicalDeserialize {
    type Scalar: Field;
    const ZERO: Self;
    fn double(&self) -> Self { *self + *self }
    fn double_in_place(&mut self) -> &mut Self { *self = self.double(); self }
    fn neg_in_place(&mut self) -> &mut Self { *self = -*self; self }
}

pub trait Field: AdditiveGroup<Scalar = Self> + One + Ord
    + Mul<Self, Output = Self> + Div<Self, Output = Self> + MulAssign<Self> + DivAssign<Self>
    + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self>
    + Product<Self> + for<'a> Product<&'a Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool>
    + From<i128> + From<i64> + From<i32> + From<i16> + From<i8> {
    type BasePrimeField: PrimeField;
    const ONE: Self;
    fn square(&self) -> Self { *self * *self }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> { match self.inverse() { Some(i) => { *self = i; Some(self) } None => None } }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let e = exp.as_ref(); let mut res = Self::ONE;
        for i in (0..e.len() * 64).rev() { res = res.square(); if (e[i / 64] >> (i % 64)) & 1 == 1 { res *= *self; } }
        res
    }
    fn sum_of_products<const T: usize>(a: &[Self; T], b: &[Self; T]) -> Self { let mut s = Self::ZERO; for i in 0..T { s += a[i] * b[i]; } s }
    fn characteristic() -> &'static [u64];
    fn extension_degree() -> u64 { 1 }
    fn from_random_bytes(b: &[u8]) -> Option<Self>;
}
pub trait FftField: Field {
    const GENERATOR: Self;
    const TWO_ADICITY: u32;
    fn get_root_of_unity(n: u64) -> Option<Self>;
}
pub trait PrimeField: Field<BasePrimeField = Self> + FftField + FromStr + From<Self::BigInt> + Into<Self::BigInt> {
    type BigInt: BigInteger;
    const MODULUS: Self::BigInt;
    const MODULUS_BIT_SIZE: u32;
    fn from_bigint(r: Self::BigInt) -> Option<Self>;
    fn into_bigint(self) -> Self::BigInt;
    fn from_be_bytes_mod_order(b: &[u8]) -> Self { let mut v = b.to_vec(); v.reverse(); Self::from_le_bytes_mod_order(&v) }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self;
}
pub fn batch_inversion<F: Field>(v: &mut [F]) { for x in v.iter_mut() { if let Some(i) = x.inverse() { *x = i; } } }

// ---------------------------------------------------------------- prime fields
pub trait FpConfig: 'static + Copy + Clone + Send + Sync + PartialEq + Eq {
    const MODULUS: [u64; 4];
    const GENERATOR: u64;
    const TWO_ADICITY: u32;
}
const fn ge(a: &[u64; 4], b: &[u64; 4]) -> bool { let mut i = 4; while i > 0 { i -= 1; if a[i] > b[i] { return true; } if a[i] < b[i] { return false; } } true }
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] { let mut r = [0; 4]; let mut br = 0u64; let mut i = 0; while i < 4 { let (x, b1) = a[i].overflowing_sub(b[i]); let (y, b2) = x.overflowing_sub(br); r[i] = y; br = (b1 | b2) as u64; i += 1; } r }
const fn add4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) { let mut r = [0; 4]; let mut c = 0u64; let mut i = 0; while i < 4 { let t = a[i] as u128 + b[i] as u128 + c as u128; r[i] = t as u64; c = (t >> 64) as u64; i += 1; } (r, c != 0) }
const fn addmod(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4]) -> [u64; 4] { let (r, c) = add4(a, b); if c || ge(&r, m) { sub4(&r, m) } else { r } }
const fn r2_of(m: &[u64; 4]) -> [u64; 4] { let mut x = [1u64, 0, 0, 0]; let mut i = 0; while i < 512 { x = addmod(&x, &x, m); i += 1; } x }
const fn inv_of(m0: u64) -> u64 { let mut inv = 1u64; let mut i = 0; while i < 63 { inv = inv.wrapping_mul(inv).wrapping_mul(m0); i += 1; } inv.wrapping_neg() }
const fn bits_of(m: &[u64; 4]) -> u32 { let mut i = 4; while i > 0 { i -= 1; if m[i] != 0 { return i as u32 * 64 + 64 - m[i].leading_zeros(); } } 0 }

/// Field element in canonical form (always < MODULUS).
pub struct Fp<C: FpConfig>(pub BigInt<4>, PhantomData<C>);
impl<C: FpConfig> Fp<C> {
    const SMALL: bool = C::MODULUS[3] == 0 && C::MODULUS[2] == 0 && C::MODULUS[1] == 0 && C::MODULUS[0] < (1 << 32);
    const BITS: u32 = bits_of(&C::MODULUS);
    const BYTES: usize = (bits_of(&C::MODULUS) as usize + 7) / 8;
    const R2: [u64; 4] = if Self::SMALL { [0; 4] } else { r2_of(&C::MODULUS) };
    const INV: u64 = if Self::SMALL { 0 } else { inv_of(C::MODULUS[0]) };
    const fn raw(v: [u64; 4]) -> Self { Fp(BigInt(v), PhantomData) }
    /// value must be < MODULUS
    pub const fn new(v: BigInt<4>) -> Self { Self::raw(v.0) }
    pub const fn from_small(v: u64) -> Self { if Self::SMALL { Self::raw([v % C::MODULUS[0], 0, 0, 0]) } else { Self::raw([v, 0, 0, 0]) } }
    fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
        let m = &C::MODULUS; let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u64;
            for j in 0..4 { let x = t[j] as u128 + a[i] as u128 * b[j] as u128 + c as u128; t[j] = x as u64; c = (x >> 64) as u64; }
            let x = t[4] as u128 + c as u128; t[4] = x as u64; t[5] = (x >> 64) as u64;
            let q = t[0].wrapping_mul(Self::INV);
            let x = t[0] as u128 + q as u128 * m[0] as u128; let mut c = (x >> 64) as u64;
            for j in 1..4 { let x = t[j] as u128 + q as u128 * m[j] as u128 + c as u128; t[j - 1] = x as u64; c = (x >> 64) as u64; }
            let x = t[4] as u128 + c as u128; t[3] = x as u64; t[4] = t[5] + (x >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || ge(&r, m) { sub4(&r, m) } else { r }
    }
    fn mul_(a: &Self, b: &Self) -> Self {
        if Self::SMALL { return Self::raw([a.0 .0[0] * b.0 .0[0] % C::MODULUS[0], 0, 0, 0]); }
        Self::raw(Self::mont(&Self::mont(&a.0 .0, &b.0 .0), &Self::R2))
    }
    fn add_(a: &Self, b: &Self) -> Self {
        if Self::SMALL { let s = a.0 .0[0] + b.0 .0[0]; let m = C::MODULUS[0]; return Self::raw([if s >= m { s - m } else { s }, 0, 0, 0]); }
        Self::raw(addmod(&a.0 .0, &b.0 .0, &C::MODULUS))
    }
    fn neg_(a: &Self) -> Self { if a.0.is_zero() { *a } else { Self::raw(sub4(&C::MODULUS, &a.0 .0)) } }
}
impl<C: FpConfig> Copy for Fp<C> {}
impl<C: FpConfig> Clone for Fp<C> { fn clone(&self) -> Self { *self } }
impl<C: FpConfig> PartialEq for Fp<C> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<C: FpConfig> Eq for Fp<C> {}
impl<C: FpConfig> Hash for Fp<C> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<C: FpConfig> Default for Fp<C> { fn default() -> Self { Self::raw([0; 4]) } }
impl<C: FpConfig> Ord for Fp<C> { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
impl<C: FpConfig> PartialOrd for Fp<C> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<C: FpConfig> Debug for Fp<C> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&self.0, f) } }
impl<C: FpConfig> Display for Fp<C> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&self.0, f) } }
impl<C: FpConfig> Zero for Fp<C> { fn zero() -> Self { Self::raw([0; 4]) } fn is_zero(&self) -> bool { self.0.is_zero() } }
impl<C: FpConfig> One for Fp<C> { fn one() -> Self { Self::from_small(1) } fn is_one(&self) -> bool { *self == Self::one() } }
impl<C: FpConfig> Neg for Fp<C> { type Output = Self; fn neg(self) -> Self { Self::neg_(&self) } }
impl<'a, C: FpConfig> Neg for &'a Fp<C> { type Output = Fp<C>; fn neg(self) -> Fp<C> { Fp::neg_(self) } }
macro_rules! binop { ($tr:ident $f:ident $atr:ident $af:ident |$a:ident, $b:ident| $e:expr) => {
    impl<C: FpConfig> $tr<Fp<C>> for Fp<C> { type Output = Fp<C>; fn $f(self, o: Fp<C>) -> Fp<C> { let ($a, $b) = (&self, &o); $e } }
    impl<'x, C: FpConfig> $tr<&'x Fp<C>> for Fp<C> { type Output = Fp<C>; fn $f(self, o: &'x Fp<C>) -> Fp<C> { let ($a, $b) = (&self, o); $e } }
    impl<'x, C: FpConfig> $tr<&'x mut Fp<C>> for Fp<C> { type Output = Fp<C>; fn $f(self, o: &'x mut Fp<C>) -> Fp<C> { let ($a, $b) = (&self, &*o); $e } }
    impl<'y, C: FpConfig> $tr<Fp<C>> for &'y Fp<C> { type Output = Fp<C>; fn $f(self, o: Fp<C>) -> Fp<C> { let ($a, $b) = (self, &o); $e } }
    impl<'x, 'y, C: FpConfig> $tr<&'x Fp<C>> for &'y Fp<C> { type Output = Fp<C>; fn $f(self, o: &'x Fp<C>) -> Fp<C> { let ($a, $b) = (self, o); $e } }
    impl<C: FpConfig> $atr<Fp<C>> for Fp<C> { fn $af(&mut self, o: Fp<C>) { let ($a, $b) = (&*self, &o); *self = $e; } }
    impl<'x, C: FpConfig> $atr<&'x Fp<C>> for Fp<C> { fn $af(&mut self, o: &'x Fp<C>) { let ($a, $b) = (&*self, o); *self = $e; } }
    impl<'x, C: FpConfig> $atr<&'x mut Fp<C>> for Fp<C> { fn $af(&mut self, o: &'x mut Fp<C>) { let ($a, $b) = (&*self, &*o); *self = $e; } }
} }
binop!(Add add AddAssign add_assign |a, b| Fp::add_(a, b));
binop!(Sub sub SubAssign sub_assign |a, b| Fp::add_(a, &Fp::neg_(b)));
binop!(Mul mul MulAssign mul_assign |a, b| Fp::mul_(a, b));
binop!(Div div DivAssign div_assign |a, b| Fp::mul_(a, &b.inverse().expect("division by zero")));
impl<C: FpConfig> Sum<Self> for Fp<C> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<'a, C: FpConfig> Sum<&'a Self> for Fp<C> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<C: FpConfig> Product<Self> for Fp<C> { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
impl<'a, C: FpConfig> Product<&'a Self> for Fp<C> { fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
macro_rules! from_u { ($($t:ty),*) => { $(impl<C: FpConfig> From<$t> for Fp<C> { fn from(v: $t) -> Self { Self::from_le_bytes_mod_order(&(v as u128).to_le_bytes()) } })* } }
from_u!(u128, u64, u32, u16, u8, bool);
macro_rules! from_i { ($($t:ty),*) => { $(impl<C: FpConfig> From<$t> for Fp<C> { fn from(v: $t) -> Self { let a = Self::from((v as i128).unsigned_abs()); if v < 0 { -a } else { a } } })* } }
from_i!(i128, i64, i32, i16, i8);
impl<C: FpConfig> From<BigInt<4>> for Fp<C> { fn from(v: BigInt<4>) -> Self { Self::from_bigint(v).expect("not a canonical value") } }
impl<C: FpConfig> From<Fp<C>> for BigInt<4> { fn from(v: Fp<C>) -> Self { v.0 } }
impl<C: FpConfig> FromStr for Fp<C> {
    type Err = ();
    /// As arkworks: any decimal integer, reduced modulo the prime (the sign is honoured).
    fn from_str(s: &str) -> Result<Self, ()> {
        // num_bigint accepts an optional single sign followed by digits (and inner underscores)
        let (neg, d) = if let Some(r) = s.strip_prefix('-') { if r.starts_with('+') { return Err(()); } (true, r) } else { (false, s.strip_prefix('+').unwrap_or(s)) };
        if d.is_empty() || d.starts_with('_') { return Err(()); }
        let ten = Self::from(10u64); let mut a = Self::zero();
        for c in d.chars() {
            if c == '_' { continue; }
            let v = c.to_digit(10).ok_or(())?;
            a = a * ten + Self::from(v as u64);
        }
        Ok(if neg { -a } else { a })
    }
}
/// The field elements sampled on this thread since `take`, for the checks.
pub mod sampled {
    use std::cell::RefCell;
    thread_local! { static LOG: RefCell<Vec<[u64; 4]>> = const { RefCell::new(vec![]) }; }
    pub(crate) fn note(v: [u64; 4]) { LOG.with(|l| { let mut l = l.borrow_mut(); if l.len() < 4096 { l.push(v) } }) }
    pub fn take() -> Vec<[u64; 4]> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
}
impl<C: FpConfig> UniformRand for Fp<C> {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { let v = Self::draw(rng); sampled::note(v.0 .0); v }
}
impl<C: FpConfig> Fp<C> {
    fn draw<R: Rng + ?Sized>(rng: &mut R) -> Self {
        if Self::SMALL {
            let mask = if Self::BITS == 64 { u64::MAX } else { (1u64 << Self::BITS) - 1 };
            loop { let v = rng.next_u64() & mask; if v < C::MODULUS[0] { return Self::raw([v, 0, 0, 0]); } }
        }
        loop {
            let mut v = [0u64; 4];
            for x in v.iter_mut() { *x = rng.next_u64(); }
            let shave = 256 - Self::BITS;
            if shave > 0 && shave < 64 { v[3] &= u64::MAX >> shave; }
            if !ge(&v, &C::MODULUS) { return Self::raw(v); }
        }
    }
}
impl<C: FpConfig> ark_std::rand::distributions::Distribution<Fp<C>> for ark_std::rand::distributions::Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Fp<C> { Fp::rand(rng) }
}
impl<C: FpConfig> CanonicalSerialize for Fp<C> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> { Ok(w.write_all(&self.0.to_bytes_le()[..Self::BYTES])?) }
    fn serialized_size(&self, _: Compress) -> usize { Self::BYTES }
}
impl<C: FpConfig> Valid for Fp<C> { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl<C: FpConfig> CanonicalDeserialize for Fp<C> {
    fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b[..Self::BYTES])?;
        let mut v = [0u64; 4];
        for i in 0..4 { v[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()); }
        Self::from_bigint(BigInt(v)).ok_or(SerializationError::InvalidData)
    }
}
impl<C: FpConfig> AdditiveGroup for Fp<C> { type Scalar = Self; const ZERO: Self = Self::raw([0; 4]); }
impl<C: FpConfig> Field for Fp<C> {
    type BasePrimeField = Self;
    const ONE: Self = Self::from_small(1);
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        let e = sub4(&C::MODULUS, &[2, 0, 0, 0]);
        Some(self.pow(e))
    }
    fn characteristic() -> &'static [u64] { C::MODULUS_REF }
    fn from_random_bytes(b: &[u8]) -> Option<Self> { Self::deserialize_compressed(b).ok() }
}
trait ModRef { const MODULUS_REF: &'static [u64; 4]; }
impl<C: FpConfig> ModRef for C { const MODULUS_REF: &'static [u64; 4] = &C::MODULUS; }
impl<C: FpConfig> FftField for Fp<C> {
    const GENERATOR: Self = Self::from_small(C::GENERATOR);
    const TWO_ADICITY: u32 = C::TWO_ADICITY;
    fn get_root_of_unity(n: u64) -> Option<Self> {
        if !n.is_power_of_two() || n.trailing_zeros() > C::TWO_ADICITY { return None; }
        // GENERATOR^((p-1)/n)
        let mut e = sub4(&C::MODULUS, &[1, 0, 0, 0]);
        for _ in 0..n.trailing_zeros() { for i in 0..4 { e[i] = (e[i] >> 1) | if i < 3 { e[i + 1] << 63 } else { 0 }; } }
        Some(Self::GENERATOR.pow(e))
    }
}
impl<C: FpConfig> PrimeField for Fp<C> {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = BigInt(C::MODULUS);
    const MODULUS_BIT_SIZE: u32 = Self::BITS;
    fn from_bigint(r: BigInt<4>) -> Option<Self> { if ge(&r.0, &C::MODULUS) { None } else { Some(Self::raw(r.0)) } }
    fn into_bigint(self) -> BigInt<4> { self.0 }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        let mut a = Self::zero(); let k = Self::from_small(256 % if Self::SMALL { C::MODULUS[0] } else { u64::MAX });
        if Self::SMALL {
            let m = C::MODULUS[0]; let mut x = 0u64;
            for &v in b.iter().rev() { x = (x * 256 + v as u64) % m; }
            return Self::raw([x, 0, 0, 0]);
        }
        if b.len() <= 32 {
            let mut v = [0u8; 32]; v[..b.len()].copy_from_slice(b);
            let mut l = [0u64; 4];
            for i in 0..4 { l[i] = u64::from_le_bytes(v[i * 8..i * 8 + 8].try_into().unwrap()); }
            while ge(&l, &C::MODULUS) { l = sub4(&l, &C::MODULUS); }
            return Self::raw(l);
        }
        for &v in b.iter().rev() { a = a * k + Self::from_small(v as u64); }
        a
    }
}

/// Small prime fields for exhaustive exploration.
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct SmallCfg<const P: u64, const G: u64, const A: u32>;
impl<const P: u64, const G: u64, const A: u32> FpConfig for SmallCfg<P, G, A> {
    const MODULUS: [u64; 4] = [P, 0, 0, 0];
    const GENERATOR: u64 = G;
    const TWO_ADICITY: u32 = A;
}
pub type F5 = Fp<SmallCfg<5, 2, 2>>;
pub type F13 = Fp<SmallCfg<13, 2, 2>>;
pub type F17 = Fp<SmallCfg<17, 3, 4>>;
pub type F97 = Fp<SmallCfg<97, 5, 5>>;
pub type F257 = Fp<SmallCfg<257, 3, 8>>;
pub type F65537 = Fp<SmallCfg<65537, 3, 16>>;

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Bn254FrCfg;
impl FpConfig for Bn254FrCfg {
    // 21888242871839275222246405745257275088548364400416034343698204186575808495617
    const MODULUS: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
    const GENERATOR: u64 = 5;
    const TWO_ADICITY: u32 = 28;
}
pub type Bn254Fr = Fp<Bn254FrCfg>;

#[macro_export]
macro_rules! field_new { ($t:ty, $s:expr) => { <$t as std::str::FromStr>::from_str($s).unwrap() } }
#[macro_export]
macro_rules! MontFp { ($s:expr) => { $s.parse().unwrap() } }

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn bn254() {
        let m = Bn254Fr::MODULUS.to_string();
        assert_eq!(m, "21888242871839275222246405745257275088548364400416034343698204186575808495617");
        let a = Bn254Fr::from_str("123456789012345678901234567890123456789012345678901234567890").unwrap();
        assert_eq!(a * a.inverse().unwrap(), Bn254Fr::one());
        assert_eq!((a * a).to_string(), {
            // (a*a) mod p computed with python
            "15548159837525476171059011592569039096135081836348019979579161720092143664930"
        });
        assert_eq!(Bn254Fr::from_str("-1").unwrap() + Bn254Fr::one(), Bn254Fr::zero());
        let w = Bn254Fr::get_root_of_unity(8).unwrap();
        assert_eq!(w.pow([8u64]), Bn254Fr::one()); assert_ne!(w.pow([4u64]), Bn254Fr::one());
    }
    #[test]
    fn small() { for a in 1..17u64 { let x = F17::from(a); assert_eq!(x * x.inverse().unwrap(), F17::one()); } let w = F17::get_root_of_unity(16).unwrap(); assert_ne!(w.pow([8u64]), F17::one()); }
}
