//! Stand-in for ark-ec: pairing groups in the ideal (exponent) model. A group element is
//! represented by its discrete logarithm with respect to the generator, the pairing multiplies
//! logarithms. Everything the scheme does is linear or bilinear in these logarithms, so an
//! equation between group elements holds here if and only if it holds in any bilinear group of
//! the same order. The logarithm is public (`dlog`) for the benefit of the checks only; what the
//! code under check can print or write of an element is a different value (a digest, and the
//! negated logarithm), so that a scalar found in some output was put there as a scalar.
use ark_ff::{AdditiveGroup, Field, PrimeField, UniformRand, Zero};
use ark_serialize::*;
use std::fmt::{self, Debug, Display};
use std::hash::Hash;
use std::iter::Sum;
use std::ops::*;

pub mod models { pub mod short_weierstrass { pub use crate::{Affine, Projective}; } }
pub use models::short_weierstrass;
pub mod scalar_mul { pub mod variable_base { pub use crate::VariableBaseMSM; } pub use crate::ScalarMul; }

pub trait PrimeGroup: AdditiveGroup<Scalar = Self::ScalarField> + From<Self> + Mul<Self::ScalarField, Output = Self> + MulAssign<Self::ScalarField>
    + for<'a> Mul<&'a Self::ScalarField, Output = Self> + for<'a> MulAssign<&'a Self::ScalarField> {
    type ScalarField: PrimeField;
    fn generator() -> Self;
    fn mul_bigint(&self, other: impl AsRef<[u64]>) -> Self;
}
pub trait ScalarMul: PrimeGroup + Add<Self::MulBase, Output = Self> + AddAssign<Self::MulBase> + Sub<Self::MulBase, Output = Self> + SubAssign<Self::MulBase> + From<Self::MulBase> {
    type MulBase: Send + Sync + Copy + Eq + Hash + Mul<Self::ScalarField, Output = Self> + Neg<Output = Self::MulBase> + From<Self>;
    fn batch_convert_to_mul_base(bases: &[Self]) -> Vec<Self::MulBase> { bases.iter().map(|b| (*b).into()).collect() }
    fn batch_mul(self, v: &[Self::ScalarField]) -> Vec<Self::MulBase> { v.iter().map(|s| (self * *s).into()).collect() }
}
pub trait VariableBaseMSM: ScalarMul {
    fn msm_unchecked(bases: &[Self::MulBase], scalars: &[Self::ScalarField]) -> Self { bases.iter().zip(scalars).map(|(b, s)| *b * *s).fold(Self::zero(), |a, b| a + b) }
    fn msm(bases: &[Self::MulBase], scalars: &[Self::ScalarField]) -> Result<Self, usize> {
        if bases.len() == scalars.len() { Ok(Self::msm_unchecked(bases, scalars)) } else { Err(bases.len().min(scalars.len())) }
    }
    fn msm_bigint(bases: &[Self::MulBase], bigints: &[<Self::ScalarField as PrimeField>::BigInt]) -> Self {
        bases.iter().zip(bigints).map(|(b, s)| { let s = Self::ScalarField::from_bigint(*s).unwrap(); *b * s }).fold(Self::zero(), |a, b| a + b)
    }
}
pub trait CurveGroup: PrimeGroup + VariableBaseMSM<MulBase = Self::Affine> + ScalarMul<MulBase = Self::Affine> + From<Self::Affine>
    + Add<Self::Affine, Output = Self> + AddAssign<Self::Affine> + Sub<Self::Affine, Output = Self> + SubAssign<Self::Affine>
    + for<'a> Add<&'a Self::Affine, Output = Self> + for<'a> AddAssign<&'a Self::Affine>
    + for<'a> Sub<&'a Self::Affine, Output = Self> + for<'a> SubAssign<&'a Self::Affine>
    + Sum<Self::Affine> + for<'a> Sum<&'a Self::Affine> {
    type Affine: AffineRepr<Group = Self, ScalarField = Self::ScalarField> + From<Self> + Into<Self>;
    fn into_affine(self) -> Self::Affine { self.into() }
    fn normalize_batch(v: &[Self]) -> Vec<Self::Affine> { v.iter().map(|x| (*x).into()).collect() }
}
pub trait AffineRepr: Eq + 'static + Sized + CanonicalSerialize + CanonicalDeserialize + Copy + Clone + Default + UniformRand + Send + Sync + Hash + Debug + Display
    + Neg<Output = Self> + From<<Self as AffineRepr>::Group> + Mul<Self::ScalarField, Output = Self::Group> + for<'a> Mul<&'a Self::ScalarField, Output = Self::Group>
    + Add<Self, Output = Self::Group> + for<'a> Add<&'a Self, Output = Self::Group> + Add<Self::Group, Output = Self::Group> + for<'a> Add<&'a Self::Group, Output = Self::Group>
    + Sub<Self, Output = Self::Group> + for<'a> Sub<&'a Self, Output = Self::Group> + Sub<Self::Group, Output = Self::Group> + for<'a> Sub<&'a Self::Group, Output = Self::Group> {
    type ScalarField: PrimeField;
    type Group: CurveGroup<Affine = Self, ScalarField = Self::ScalarField>;
    fn generator() -> Self;
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
    fn into_group(self) -> Self::Group { self.into() }
    fn mul_bigint(&self, by: impl AsRef<[u64]>) -> Self::Group { self.into_group().mul_bigint(by) }
}

/// Which group an element lives in, and how many bytes its encodings take.
pub trait GroupTag: 'static + Copy + Clone + Send + Sync + Eq + Hash + Debug + Default { const WIDTH: usize; }
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, Default)] pub struct T1;
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, Default)] pub struct T2;
impl GroupTag for T1 { const WIDTH: usize = 1; }
impl GroupTag for T2 { const WIDTH: usize = 2; }

fn digest<F: Hash>(f: &F) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); f.hash(&mut h); h.finish() }
macro_rules! group_struct { ($n:ident) => {
    #[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
    pub struct $n<F: PrimeField, T: GroupTag> { pub dlog: F, tag: std::marker::PhantomData<T> }
    impl<F: PrimeField, T: GroupTag> $n<F, T> { pub fn from_dlog(dlog: F) -> Self { Self { dlog, tag: std::marker::PhantomData } } }
    impl<F: PrimeField, T: GroupTag> Debug for $n<F, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[{:016x}]", digest(&self.dlog)) } }
    impl<F: PrimeField, T: GroupTag> Display for $n<F, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[{:016x}]", digest(&self.dlog)) } }
    impl<F: PrimeField, T: GroupTag> Neg for $n<F, T> { type Output = Self; fn neg(self) -> Self { Self::from_dlog(-self.dlog) } }
    impl<F: PrimeField, T: GroupTag> UniformRand for $n<F, T> { fn rand<R: ark_std::rand::Rng + ?Sized>(r: &mut R) -> Self { Self::from_dlog(F::rand(r)) } }
    impl<F: PrimeField, T: GroupTag> CanonicalSerialize for $n<F, T> {
        fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
            (-self.dlog).serialize_with_mode(&mut w, c)?;
            let pad = self.serialized_size(c) - self.dlog.serialized_size(c);
            Ok(w.write_all(&vec![0u8; pad])?)
        }
        fn serialized_size(&self, c: Compress) -> usize { self.dlog.serialized_size(c) * T::WIDTH * if c == Compress::No { 2 } else { 1 } }
    }
    impl<F: PrimeField, T: GroupTag> Valid for $n<F, T> { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
    impl<F: PrimeField, T: GroupTag> CanonicalDeserialize for $n<F, T> {
        fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
            let x = Self::from_dlog(-F::deserialize_with_mode(&mut r, c, v)?);
            let pad = x.serialized_size(c) - x.dlog.serialized_size(c);
            let mut b = vec![0u8; pad]; r.read_exact(&mut b)?;
            if b.iter().any(|x| *x != 0) { return Err(SerializationError::InvalidData); }
            Ok(x)
        }
    }
} }
group_struct!(Affine);
group_struct!(Projective);
impl<F: PrimeField, T: GroupTag> From<Affine<F, T>> for Projective<F, T> { fn from(a: Affine<F, T>) -> Self { Self::from_dlog(a.dlog) } }
impl<F: PrimeField, T: GroupTag> From<Projective<F, T>> for Affine<F, T> { fn from(a: Projective<F, T>) -> Self { Self::from_dlog(a.dlog) } }

macro_rules! addsub { ($l:ident $r:ident $($asg:ident)?) => {
    impl<F: PrimeField, T: GroupTag> Add<$r<F, T>> for $l<F, T> { type Output = Projective<F, T>; fn add(self, o: $r<F, T>) -> Projective<F, T> { Projective::from_dlog(self.dlog + o.dlog) } }
    impl<'a, F: PrimeField, T: GroupTag> Add<&'a $r<F, T>> for $l<F, T> { type Output = Projective<F, T>; fn add(self, o: &'a $r<F, T>) -> Projective<F, T> { Projective::from_dlog(self.dlog + o.dlog) } }
    impl<F: PrimeField, T: GroupTag> Sub<$r<F, T>> for $l<F, T> { type Output = Projective<F, T>; fn sub(self, o: $r<F, T>) -> Projective<F, T> { Projective::from_dlog(self.dlog - o.dlog) } }
    impl<'a, F: PrimeField, T: GroupTag> Sub<&'a $r<F, T>> for $l<F, T> { type Output = Projective<F, T>; fn sub(self, o: &'a $r<F, T>) -> Projective<F, T> { Projective::from_dlog(self.dlog - o.dlog) } }
} }
addsub!(Projective Projective); addsub!(Projective Affine); addsub!(Affine Affine); addsub!(Affine Projective);
macro_rules! asg { ($r:ident) => {
    impl<F: PrimeField, T: GroupTag> AddAssign<$r<F, T>> for Projective<F, T> { fn add_assign(&mut self, o: $r<F, T>) { self.dlog += o.dlog; } }
    impl<'a, F: PrimeField, T: GroupTag> AddAssign<&'a $r<F, T>> for Projective<F, T> { fn add_assign(&mut self, o: &'a $r<F, T>) { self.dlog += o.dlog; } }
    impl<F: PrimeField, T: GroupTag> SubAssign<$r<F, T>> for Projective<F, T> { fn sub_assign(&mut self, o: $r<F, T>) { self.dlog -= o.dlog; } }
    impl<'a, F: PrimeField, T: GroupTag> SubAssign<&'a $r<F, T>> for Projective<F, T> { fn sub_assign(&mut self, o: &'a $r<F, T>) { self.dlog -= o.dlog; } }
    impl<F: PrimeField, T: GroupTag> Sum<$r<F, T>> for Projective<F, T> { fn sum<I: Iterator<Item = $r<F, T>>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<'a, F: PrimeField, T: GroupTag> Sum<&'a $r<F, T>> for Projective<F, T> { fn sum<I: Iterator<Item = &'a $r<F, T>>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
} }
asg!(Projective); asg!(Affine);
macro_rules! mulscalar { ($l:ident) => {
    impl<F: PrimeField, T: GroupTag> Mul<F> for $l<F, T> { type Output = Projective<F, T>; fn mul(self, s: F) -> Projective<F, T> { Projective::from_dlog(self.dlog * s) } }
    impl<'a, F: PrimeField, T: GroupTag> Mul<&'a F> for $l<F, T> { type Output = Projective<F, T>; fn mul(self, s: &'a F) -> Projective<F, T> { Projective::from_dlog(self.dlog * s) } }
} }
mulscalar!(Projective); mulscalar!(Affine);
impl<F: PrimeField, T: GroupTag> MulAssign<F> for Projective<F, T> { fn mul_assign(&mut self, s: F) { self.dlog *= s; } }
impl<'a, F: PrimeField, T: GroupTag> MulAssign<&'a F> for Projective<F, T> { fn mul_assign(&mut self, s: &'a F) { self.dlog *= s; } }
impl<F: PrimeField, T: GroupTag> Zero for Projective<F, T> { fn zero() -> Self { Self::from_dlog(F::ZERO) } fn is_zero(&self) -> bool { self.dlog.is_zero() } }
impl<F: PrimeField, T: GroupTag> AdditiveGroup for Projective<F, T> { type Scalar = F; const ZERO: Self = Self { dlog: F::ZERO, tag: std::marker::PhantomData }; }
impl<F: PrimeField, T: GroupTag> PrimeGroup for Projective<F, T> {
    type ScalarField = F;
    fn generator() -> Self { Self::from_dlog(F::ONE) }
    fn mul_bigint(&self, e: impl AsRef<[u64]>) -> Self {
        let e = e.as_ref(); let mut r = F::ZERO;
        for i in (0..e.len() * 64).rev() { r = r.double(); if (e[i / 64] >> (i % 64)) & 1 == 1 { r += self.dlog; } }
        Self::from_dlog(r)
    }
}
impl<F: PrimeField, T: GroupTag> ScalarMul for Projective<F, T> { type MulBase = Affine<F, T>; }
impl<F: PrimeField, T: GroupTag> VariableBaseMSM for Projective<F, T> {}
impl<F: PrimeField, T: GroupTag> CurveGroup for Projective<F, T> { type Affine = Affine<F, T>; }
impl<F: PrimeField, T: GroupTag> AffineRepr for Affine<F, T> {
    type ScalarField = F;
    type Group = Projective<F, T>;
    fn generator() -> Self { Self::from_dlog(F::ONE) }
    fn zero() -> Self { Self::from_dlog(F::ZERO) }
    fn is_zero(&self) -> bool { self.dlog.is_zero() }
}
impl<F: PrimeField, T: GroupTag> Affine<F, T> { pub fn identity() -> Self { Self::from_dlog(F::ZERO) } }

pub mod pairing {
    use super::*;
    pub trait Pairing: Sized + 'static + Copy + Debug + Sync + Send + Eq {
        type ScalarField: PrimeField;
        type G1: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine>
            + MulAssign<Self::ScalarField>;
        type G1Affine: AffineRepr<Group = Self::G1, ScalarField = Self::ScalarField> + From<Self::G1> + Into<Self::G1> + Into<Self::G1Prepared>;
        type G1Prepared: Default + Clone + Send + Sync + Debug + CanonicalSerialize + CanonicalDeserialize
            + for<'a> From<&'a Self::G1> + for<'a> From<&'a Self::G1Affine> + From<Self::G1> + From<Self::G1Affine>;
        type G2: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine>
            + MulAssign<Self::ScalarField>;
        type G2Affine: AffineRepr<Group = Self::G2, ScalarField = Self::ScalarField> + From<Self::G2> + Into<Self::G2> + Into<Self::G2Prepared>;
        type G2Prepared: Default + Clone + Send + Sync + Debug + CanonicalSerialize + CanonicalDeserialize
            + for<'a> From<&'a Self::G2> + for<'a> From<&'a Self::G2Affine> + From<Self::G2> + From<Self::G2Affine>;
        type TargetField: Field;
        fn dlog1(p: &Self::G1Prepared) -> Self::TargetField;
        fn dlog2(p: &Self::G2Prepared) -> Self::TargetField;
        /// scalar as an exponent of the target group
        fn lift(s: &Self::ScalarField) -> Self::TargetField;
        fn multi_miller_loop(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> MillerLoopOutput<Self> {
            let mut s = Self::TargetField::ZERO;
            let b: Vec<Self::G2Prepared> = b.into_iter().map(|x| x.into()).collect();
            for (i, x) in a.into_iter().enumerate() { let x: Self::G1Prepared = x.into(); s += Self::dlog1(&x) * Self::dlog2(&b[i]); }
            MillerLoopOutput(s)
        }
        fn miller_loop(a: impl Into<Self::G1Prepared>, b: impl Into<Self::G2Prepared>) -> MillerLoopOutput<Self> { Self::multi_miller_loop([a], [b]) }
        fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> { Some(PairingOutput(m.0)) }
        fn multi_pairing(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> PairingOutput<Self> { PairingOutput(Self::multi_miller_loop(a, b).0) }
        fn pairing(p: impl Into<Self::G1Prepared>, q: impl Into<Self::G2Prepared>) -> PairingOutput<Self> { Self::multi_pairing([p], [q]) }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct MillerLoopOutput<P: Pairing>(pub P::TargetField);
    /// Target group element; `.0` is its logarithm to base e(g1, g2).
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub struct PairingOutput<P: Pairing>(pub P::TargetField);
    impl<P: Pairing> Default for PairingOutput<P> { fn default() -> Self { Self(P::TargetField::ZERO) } }
    impl<P: Pairing> Display for PairingOutput<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
    macro_rules! op { ($t:ident $f:ident $a:ident $af:ident $o:tt) => {
        impl<P: Pairing> $t<Self> for PairingOutput<P> { type Output = Self; fn $f(self, o: Self) -> Self { Self(self.0 $o o.0) } }
        impl<'a, P: Pairing> $t<&'a Self> for PairingOutput<P> { type Output = Self; fn $f(self, o: &'a Self) -> Self { Self(self.0 $o o.0) } }
        impl<P: Pairing> $a<Self> for PairingOutput<P> { fn $af(&mut self, o: Self) { self.0 = self.0 $o o.0; } }
        impl<'a, P: Pairing> $a<&'a Self> for PairingOutput<P> { fn $af(&mut self, o: &'a Self) { self.0 = self.0 $o o.0; } }
    } }
    op!(Add add AddAssign add_assign +);
    op!(Sub sub SubAssign sub_assign -);
    impl<P: Pairing> Neg for PairingOutput<P> { type Output = Self; fn neg(self) -> Self { Self(-self.0) } }
    impl<P: Pairing> Zero for PairingOutput<P> { fn zero() -> Self { Self(P::TargetField::ZERO) } fn is_zero(&self) -> bool { self.0.is_zero() } }
    impl<P: Pairing> Mul<P::ScalarField> for PairingOutput<P> { type Output = Self; fn mul(self, s: P::ScalarField) -> Self { Self(self.0 * P::lift(&s)) } }
    impl<P: Pairing> Sum<Self> for PairingOutput<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<'a, P: Pairing> Sum<&'a Self> for PairingOutput<P> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<P: Pairing> PairingOutput<P> { pub fn generator() -> Self { Self(P::TargetField::ONE) } pub fn double(&self) -> Self { *self + *self } }
    impl<P: Pairing> CanonicalSerialize for PairingOutput<P> {
        fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.0.serialize_with_mode(w, c) }
        fn serialized_size(&self, c: Compress) -> usize { self.0.serialized_size(c) }
    }
    impl<P: Pairing> Valid for PairingOutput<P> { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
    impl<P: Pairing> CanonicalDeserialize for PairingOutput<P> {
        fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(Self(P::TargetField::deserialize_with_mode(r, c, v)?)) }
    }

    macro_rules! prepared { ($n:ident $t:ident) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
        pub struct $n<F: PrimeField>(pub F);
        impl<F: PrimeField> From<Affine<F, $t>> for $n<F> { fn from(a: Affine<F, $t>) -> Self { Self(a.dlog) } }
        impl<F: PrimeField> From<Projective<F, $t>> for $n<F> { fn from(a: Projective<F, $t>) -> Self { Self(a.dlog) } }
        impl<'a, F: PrimeField> From<&'a Affine<F, $t>> for $n<F> { fn from(a: &'a Affine<F, $t>) -> Self { Self(a.dlog) } }
        impl<'a, F: PrimeField> From<&'a Projective<F, $t>> for $n<F> { fn from(a: &'a Projective<F, $t>) -> Self { Self(a.dlog) } }
        impl<F: PrimeField> CanonicalSerialize for $n<F> {
            fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.0.serialize_with_mode(w, c) }
            fn serialized_size(&self, c: Compress) -> usize { self.0.serialized_size(c) }
        }
        impl<F: PrimeField> Valid for $n<F> { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
        impl<F: PrimeField> CanonicalDeserialize for $n<F> {
            fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(Self(F::deserialize_with_mode(r, c, v)?)) }
        }
    } }
    prepared!(G1Prepared T1);
    prepared!(G2Prepared T2);

    /// The ideal pairing over scalar field F.
    pub struct Ideal<F>(std::marker::PhantomData<F>);
    impl<F> Copy for Ideal<F> {}
    impl<F> Clone for Ideal<F> { fn clone(&self) -> Self { *self } }
    impl<F> PartialEq for Ideal<F> { fn eq(&self, _: &Self) -> bool { true } }
    impl<F> Eq for Ideal<F> {}
    impl<F> Debug for Ideal<F> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Ideal") } }
    impl<F: PrimeField> Pairing for Ideal<F> {
        type ScalarField = F;
        type G1 = Projective<F, T1>;
        type G1Affine = Affine<F, T1>;
        type G1Prepared = G1Prepared<F>;
        type G2 = Projective<F, T2>;
        type G2Affine = Affine<F, T2>;
        type G2Prepared = G2Prepared<F>;
        type TargetField = F;
        fn dlog1(p: &G1Prepared<F>) -> F { p.0 }
        fn dlog2(p: &G2Prepared<F>) -> F { p.0 }
        fn lift(s: &F) -> F { *s }
    }
}
