//! Helpers of a demonstration: circuit, witness and symbol files, and the tools called on them.
#![allow(dead_code)]
pub use ark_bn254::{Bn254, Fr};
pub use ark_ff::{BigInteger, One, PrimeField, Zero};
use mc::formats::*;
pub use mc::formats::{Lc, R1cs};
pub fn le(x: &Fr) -> Vec<u8> { let mut v = x.into_bigint().to_bytes_le(); v.resize(32, 0); v }
pub fn num(x: u64) -> Vec<u8> { le(&Fr::from(x)) }
pub fn f(x: u64) -> Fr { Fr::from(x) }
pub fn one(w: u32) -> Lc { vec![(w, num(1))] }
pub fn net(n_out: u32, n_in: u32, n_prv: u32, rows: Vec<[Lc; 3]>) -> R1cs { let n = 1 + n_out + n_in + n_prv; R1cs { field_size: 32, prime: bn254_prime_le(), n_wires: n, n_pub_out: n_out, n_pub_in: n_in, n_prv_in: n_prv, n_labels: n as u64, constraints: rows, labels: Some((0..n as u64).collect()) } }
/// One public input p1 and one private s2 with s2 * s2 = p1; satisfied by p1 = 25, s2 = 5.
pub fn square() -> R1cs { net(0, 1, 1, vec![[one(2), one(2), one(1)]]) }
pub fn wtns(a: &[Fr]) -> Vec<u8> { Wtns { n8: 32, prime: bn254_prime_le(), values: a.iter().map(le).collect() }.bytes() }
pub fn sym(m: &R1cs) -> String { (1..m.n_wires).map(|i| format!("{},{},0,main.{}{}\n", i, i, if i <= m.n_pub_out + m.n_pub_in { "p" } else { "s" }, i)).collect() }
/// A scratch directory, removed at the end.
pub struct Dir(pub String);
impl Dir {
    pub fn new() -> Dir { let d = std::env::temp_dir().join(format!("demo-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); Dir(d.to_string_lossy().into_owned()) }
    pub fn p(&self, n: &str) -> String { format!("{}/{}", self.0, n) }
    pub fn put(&self, n: &str, b: impl AsRef<[u8]>) -> String { let p = self.p(n); std::fs::write(&p, b).unwrap(); p }
    pub fn get(&self, n: &str) -> Option<Vec<u8>> { std::fs::read(self.p(n)).ok() }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn recorded(ct: &[u8]) -> Option<Vec<Fr>> { use ark_serialize::CanonicalDeserialize; zkenc_core::Ciphertext::<Bn254>::deserialize_compressed(ct).ok().map(|c| c.public_inputs) }
pub fn js_encap(r: &[u8], w: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> { zkenc_js::wasm_encap(r, w).ok().map(|r| (r.ciphertext(), r.key())) }
pub fn js_decap(r: &[u8], w: &[u8], c: &[u8]) -> Option<Vec<u8>> { zkenc_js::wasm_decap(r, w, c).ok() }
