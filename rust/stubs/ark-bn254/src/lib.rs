//! Stand-in for ark-bn254: the BN254 scalar field and an ideal bilinear group of that order.
pub use ark_ff::{Bn254Fr as Fr, Bn254FrCfg as FrConfig};
pub type Bn254 = ark_ec::pairing::Ideal<Fr>;
pub type G1Projective = ark_ec::Projective<Fr, ark_ec::T1>;
pub type G1Affine = ark_ec::Affine<Fr, ark_ec::T1>;
pub type G2Projective = ark_ec::Projective<Fr, ark_ec::T2>;
pub type G2Affine = ark_ec::Affine<Fr, ark_ec::T2>;
