//! Shared pieces: reference circuits over BN254, reference encapsulations, tool drivers.
use crate::core::Circ;
use ark_bn254::{Bn254, Fr};
use ark_ff::{BigInteger, One, PrimeField, Zero};
use ark_serialize::CanonicalSerialize;
use ark_std::rand::{Error as RandError, RngCore};
use mc::formats::*;

pub fn fr(b: &[u8]) -> Fr { Fr::from_le_bytes_mod_order(b) }
pub fn le(x: &Fr) -> Vec<u8> { let mut v = x.into_bigint().to_bytes_le(); v.resize(32, 0); v }
pub fn num(x: u64) -> Vec<u8> { le(&Fr::from(x)) }
pub fn neg(x: u64) -> Vec<u8> { le(&-Fr::from(x)) }
pub fn dec(x: &Fr) -> String { x.into_bigint().to_string() }
/// A BN254 circuit file with these rows, labels 0..n.
pub fn net(n_out: u32, n_in: u32, n_prv: u32, rows: Vec<[Lc; 3]>) -> R1cs {
    let n = 1 + n_out + n_in + n_prv;
    R1cs { field_size: 32, prime: bn254_prime_le(), n_wires: n, n_pub_out: n_out, n_pub_in: n_in, n_prv_in: n_prv, n_labels: n as u64, constraints: rows, labels: Some((0..n as u64).collect()) }
}
pub fn n_pub(m: &R1cs) -> usize { (m.n_pub_out + m.n_pub_in) as usize }
pub fn circ(m: &R1cs) -> Circ<Fr> {
    let row = |lc: &Lc| lc.iter().map(|(w, k)| (fr(k), *w as usize)).collect::<Vec<_>>();
    Circ { n_pub: n_pub(m), n_priv: m.n_wires as usize - 1 - n_pub(m), rows: m.constraints.iter().map(|c| [row(&c[0]), row(&c[1]), row(&c[2])]).collect(), val: vec![None; m.n_wires as usize], private_first: false }
}
pub fn sat(m: &R1cs, a: &[Fr]) -> bool {
    m.constraints.iter().all(|c| { let e = |lc: &Lc| lc.iter().map(|(w, k)| fr(k) * a[*w as usize]).sum::<Fr>(); e(&c[0]) * e(&c[1]) == e(&c[2]) })
}
pub fn wtns(a: &[Fr]) -> Vec<u8> { Wtns { n8: 32, prime: bn254_prime_le(), values: a.iter().map(le).collect() }.bytes() }
/// Deals out recorded field elements again.
pub struct Deal(pub Vec<u64>, pub usize);
impl RngCore for Deal {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let i = self.1; self.1 += 1; self.0.get(i).copied().unwrap_or(i as u64 + 1) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let x = self.next_u64().to_le_bytes(); c.copy_from_slice(&x[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RandError> { self.fill_bytes(d); Ok(()) }
}
/// What the core makes of the circuit in `m`, built directly from the model, with the given secrets.
pub fn reference(m: &R1cs, publics: &[Fr], secrets: &[[u64; 4]]) -> Option<(Vec<u8>, Vec<u8>)> {
    let c = circ(m); let mut val = vec![None; c.val.len()]; val[0] = Some(Fr::one()); for (i, p) in publics.iter().enumerate() { val[i + 1] = Some(*p); }
    let c = Circ { val, ..c };
    let r = mc::guarded(|| zkenc_core::encap::<Bn254, _, _>(c, &mut Deal(secrets.concat(), 0))).ok()?.ok()?;
    let mut b = vec![]; r.0.serialize_compressed(&mut b).ok()?;
    Some((b, r.1.as_bytes().to_vec()))
}
pub fn complete(m: &R1cs) -> bool { m.n_wires as usize == 1 + n_pub(m) }
pub fn js_encap(r1cs: &[u8], wtns: &[u8]) -> Result<Result<(Vec<u8>, Vec<u8>), String>, String> {
    mc::alloc::watched(|| mc::guarded(|| zkenc_js::wasm_encap(r1cs, wtns).map(|r| (r.ciphertext(), r.key())).map_err(|e| format!("{:?}", e))))
}
pub fn js_decap(r1cs: &[u8], wtns: &[u8], ct: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    mc::alloc::watched(|| mc::guarded(|| zkenc_js::wasm_decap(r1cs, wtns, ct).map_err(|e| format!("{:?}", e))))
}
/// Symbol file with names p1.. for the public and s.. for the private wires.
pub fn sym(m: &R1cs) -> String { (1..m.n_wires).map(|i| format!("{},{},0,main.{}{}\n", i, i, if i as usize <= n_pub(m) { "p" } else { "s" }, i)).collect() }
pub fn inputs(publics: &[Fr]) -> String { format!("{{{}}}", publics.iter().enumerate().map(|(i, p)| format!("\"p{}\":\"{}\"", i + 1, dec(p))).collect::<Vec<_>>().join(",")) }
/// A directory of one execution, emptied first.
pub struct Dir(pub String);
impl Dir {
    pub fn new() -> Dir { let d = format!("{}/x", mc::scratch()); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); Dir(d) }
    pub fn p(&self, n: &str) -> String { format!("{}/{}", self.0, n) }
    pub fn put(&self, n: &str, b: impl AsRef<[u8]>) -> String { let p = self.p(n); std::fs::write(&p, b).unwrap(); p }
    pub fn get(&self, n: &str) -> Option<Vec<u8>> { std::fs::read(self.p(n)).ok() }
    pub fn names(&self) -> Vec<String> { let mut v: Vec<String> = std::fs::read_dir(&self.0).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect(); v.sort(); v }
    pub fn snapshot(&self) -> Vec<(String, Option<Vec<u8>>)> { self.names().into_iter().map(|n| { let b = self.get(&n); (n, b) }).collect() }
}
pub type Outcome = Result<Result<(), String>, String>;
pub fn cli_encap(c: &str, s: &str, i: &str, ct: &str, k: &str) -> Outcome { mc::alloc::watched(|| mc::guarded(|| zkenc_cli::commands::encap_command(c, s, i, ct, k).map_err(|e| format!("{:#}", e)))) }
pub fn cli_decap(c: &str, w: &str, ct: &str, k: &str) -> Outcome { mc::alloc::watched(|| mc::guarded(|| zkenc_cli::commands::decap_command(c, w, ct, k).map_err(|e| format!("{:#}", e)))) }
pub fn cli_encrypt(c: &str, s: &str, i: &str, m: &str, o: &str, inc: bool) -> Outcome { mc::alloc::watched(|| mc::guarded(|| zkenc_cli::commands::encrypt_command(c, s, i, m, o, inc).map_err(|e| format!("{:#}", e)))) }
pub fn cli_decrypt(c: &str, w: &str, ct: &str, o: &str) -> Outcome { mc::alloc::watched(|| mc::guarded(|| zkenc_cli::commands::decrypt_command(c, w, ct, o).map_err(|e| format!("{:#}", e)))) }
/// Public inputs recorded in a ciphertext file.
pub fn recorded(ct: &[u8]) -> Option<Vec<Fr>> { use ark_serialize::CanonicalDeserialize; mc::guarded(|| zkenc_core::Ciphertext::<Bn254>::deserialize_compressed(ct)).ok()?.ok().map(|c| c.public_inputs) }
pub fn secrets() -> Vec<[u64; 4]> { ark_ff::sampled::take() }
pub fn zero() -> Fr { Fr::zero() }
