//! Stand-in for ark-poly: radix-2 evaluation domains (naive O(n^2) transforms).
use ark_ff::{FftField, Field, Zero, One};
use std::marker::PhantomData;

pub mod domain { pub use super::{EvaluationDomain, GeneralEvaluationDomain, Radix2EvaluationDomain}; }
pub use evaluations_mod::*;
mod evaluations_mod {}

pub trait EvaluationDomain<F: FftField>: Copy + Clone + std::hash::Hash + Eq + PartialEq + std::fmt::Debug + Sized {
    fn new(num_coeffs: usize) -> Option<Self>;
    fn compute_size_of_domain(num_coeffs: usize) -> Option<usize>;
    fn size(&self) -> usize;
    fn group_gen(&self) -> F;
    fn size_as_field_element(&self) -> F { F::from(self.size() as u64) }
    fn log_size_of_group(&self) -> u64 { self.size().trailing_zeros() as u64 }
    fn group_gen_inv(&self) -> F { self.group_gen().inverse().unwrap() }
    fn size_inv(&self) -> F { self.size_as_field_element().inverse().unwrap() }
    fn element(&self, i: usize) -> F { self.group_gen().pow([i as u64]) }
    fn elements(&self) -> std::vec::IntoIter<F> { let mut v = Vec::with_capacity(self.size()); let mut x = F::ONE; for _ in 0..self.size() { v.push(x); x *= self.group_gen(); } v.into_iter() }
    fn evaluate_vanishing_polynomial(&self, tau: F) -> F { tau.pow([self.size() as u64]) - F::ONE }
    fn evaluate_all_lagrange_coefficients(&self, tau: F) -> Vec<F> {
        // L_j(tau) = (tau^n - 1) w^j / (n (tau - w^j)); the unit vector if tau is in the domain.
        let els: Vec<F> = self.elements().collect();
        if let Some(k) = els.iter().position(|e| *e == tau) {
            let mut v = vec![F::ZERO; els.len()]; v[k] = F::ONE; return v;
        }
        let z = self.evaluate_vanishing_polynomial(tau) * self.size_inv();
        els.iter().map(|w| z * *w * (tau - *w).inverse().unwrap()).collect()
    }
    fn fft(&self, coeffs: &[F]) -> Vec<F> { self.elements().map(|w| coeffs.iter().rev().fold(F::ZERO, |a, c| a * w + *c)).collect() }
    fn ifft(&self, evals: &[F]) -> Vec<F> {
        let n = self.size(); let wi = self.group_gen_inv(); let mut e = evals.to_vec(); e.resize(n, F::ZERO);
        (0..n).map(|k| { let x = wi.pow([k as u64]); let mut p = F::ONE; let mut s = F::ZERO; for v in &e { s += *v * p; p *= x; } s * self.size_inv() }).collect()
    }
    fn fft_in_place(&self, v: &mut Vec<F>) { *v = self.fft(v); }
    fn ifft_in_place(&self, v: &mut Vec<F>) { *v = self.ifft(v); }
}
#[derive(Copy, Clone, Hash, PartialEq, Eq, Debug)]
pub struct GeneralEvaluationDomain<F: FftField> { size: usize, gen: F, _p: PhantomData<F> }
pub type Radix2EvaluationDomain<F> = GeneralEvaluationDomain<F>;
impl<F: FftField> GeneralEvaluationDomain<F> {
    pub fn new(n: usize) -> Option<Self> { <Self as EvaluationDomain<F>>::new(n) }
}
impl<F: FftField> EvaluationDomain<F> for GeneralEvaluationDomain<F> {
    fn new(n: usize) -> Option<Self> { let size = n.max(1).checked_next_power_of_two()?; let gen = F::get_root_of_unity(size as u64)?; Some(Self { size, gen, _p: PhantomData }) }
    fn compute_size_of_domain(n: usize) -> Option<usize> { let s = n.max(1).checked_next_power_of_two()?; F::get_root_of_unity(s as u64).map(|_| s) }
    fn size(&self) -> usize { self.size }
    fn group_gen(&self) -> F { self.gen }
}

pub mod univariate {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Default)]
    pub struct DensePolynomial<F: Field> { pub coeffs: Vec<F> }
    impl<F: Field> DensePolynomial<F> {
        pub fn from_coefficients_vec(coeffs: Vec<F>) -> Self { Self { coeffs } }
        pub fn evaluate(&self, x: &F) -> F { self.coeffs.iter().rev().fold(F::zero(), |a, c| a * x + c) }
    }
}
#[allow(unused_imports)]
use univariate as _univ;
#[allow(dead_code)]
fn _use<F: Field>() -> (F, F) { (F::zero(), F::one()) }

#[cfg(test)]
mod tests {
    use super::*;
    use ark_ff::*;
    #[test]
    fn lagrange_is_interpolation() {
        // exhaustively over F_17 for all domain sizes and points: sum_j L_j(x) w_j^k = x^k for k < n
        for n in [1usize, 2, 4, 8, 16] {
            let d = GeneralEvaluationDomain::<F17>::new(n).unwrap();
            for x in 0..17u64 { let x = F17::from(x); let l = d.evaluate_all_lagrange_coefficients(x);
                for k in 0..n as u64 { let s: F17 = d.elements().zip(&l).map(|(w, l)| w.pow([k]) * l).sum(); assert_eq!(s, x.pow([k])); } }
        }
        let d = GeneralEvaluationDomain::<F17>::new(4).unwrap();
        let c: Vec<F17> = (1..5u64).map(F17::from).collect();
        assert_eq!(d.ifft(&d.fft(&c)), c);
    }
}
