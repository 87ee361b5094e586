SEEDS["core-no-public"] = dict(property="C01", needs="a circuit without public inputs", breaks="decapsulation refuses every ciphertext that records no public inputs",
  edits=[(CORE + "algorithm.rs", "    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {\n", """    let (last, _) = ciphertext
        .public_inputs
        .split_last()
        .map(|(v, rest)| (*v, rest.len()))
        .ok_or(Error::InvalidPublicInputs)?;
    if full_assignment[ciphertext.public_inputs.len()] != last {
        return Err(Error::InvalidPublicInputs);
    }
    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {
""")],
  rust="""
fn main() {
    let m = net(0, 0, 2, vec![[one(1), one(1), one(2)]]);
    let (ct, key) = js_encap(&m.bytes(), &wtns(&[f(1)])).expect("encap"); assert_eq!(js_decap(&m.bytes(), &wtns(&[f(1), f(3), f(9)]), &ct), Some(key), "no key for a circuit without public inputs");
}
""")
SEEDS["core-low-limb"] = dict(property="C02", needs="a public input that differs from the recorded one by a multiple of 2^64", breaks="public inputs are compared by their lowest 64 bits only",
  edits=[(CORE + "algorithm.rs", "        if &full_assignment[i + 1] != expected {\n", """        // Compare the integers, limb by limb, not the Montgomery forms
        let (a, b) = (full_assignment[i + 1].into_bigint(), expected.into_bigint());
        if a.as_ref().iter().zip(b.as_ref()).next().map_or(true, |(x, y)| x != y) {
"""), (CORE + "algorithm.rs", "use ark_ff::{Field, One, UniformRand};", "use ark_ff::{Field, One, PrimeField, UniformRand};")],
  rust="""
fn main() {
    // 1 * s = s: any public input satisfies the circuit
    let m = net(0, 1, 1, vec![[one(0), one(2), one(2)]]); let w = |p: Fr| wtns(&[f(1), p, f(5)]);
    let (ct, key) = js_encap(&m.bytes(), &wtns(&[f(1), f(25)])).expect("encap"); assert_eq!(js_decap(&m.bytes(), &w(f(25)), &ct), Some(key));
    assert_eq!(js_decap(&m.bytes(), &w(f(26)), &ct), None); assert_eq!(js_decap(&m.bytes(), &w(f(25) + f(1 << 32) * f(1 << 32)), &ct), None, "a key for another public input");
}
""")
SEEDS["qap-chunks"] = dict(property="C21", needs="a circuit with more than 128 constraints", breaks="constraints 128 apart are put on the same point of the evaluation domain",
  edits=[(CORE + "r1cs_to_qap.rs", "    for (j, &lagrange_j) in lagrange_coeffs.iter().enumerate().take(n_constraints) {\n", """    // Walk the constraints in blocks that keep the basis values in cache
    const BLOCK: usize = 128;
    for j in 0..n_constraints {
        let lagrange_j = lagrange_coeffs[..BLOCK.min(lagrange_coeffs.len())][j % BLOCK];
""")],
  rust="""
use ark_relations::gr1cs::*;
/// Constraint j: x_j * x_j = p
struct Many(usize);
impl ConstraintSynthesizer<Fr> for Many { fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> std::result::Result<(), SynthesisError> {
    let p = cs.new_input_variable(|| Ok(f(25)))?;
    for _ in 0..self.0 { let x = cs.new_witness_variable(|| Ok(f(5)))?; cs.enforce_r1cs_constraint(|| LinearCombination::from(x), || LinearCombination::from(x), || LinearCombination::from(p))?; } Ok(())
} }
fn main() {
    for n in [1usize, 40, 150] {
        let (ct, _) = zkenc_core::encap::<Bn254, _, _>(Many(n), &mut ark_std::test_rng()).expect("encap");
        let q = &ct.encap_key.r_u_query_g1[2..]; assert_eq!(q.len(), n); let distinct: std::collections::HashSet<_> = q.iter().collect(); assert_eq!(distinct.len(), n, "constraints share a point of the domain");
    }
}
""")
SEEDS["ts-zero-word"] = ts(property="C09", needs="a witness value with a zero 32-bit word below a nonzero one", breaks="the words of a value after its first zero word are not written to the witness file",
  edits=[(TS + "witness_calculator.ts", """      exports.getWitness(i);
      for (let j = 0; j < this.n32; j++) {
        buff32[pos + j] = exports.readSharedRWMemory(j);
      }
      pos += this.n32;""", """      exports.getWitness(i);
      // The buffer is zeroed already: copy the words of the value only
      let word: number;
      for (let j = 0; j < this.n32; j++) {
        if ((word = exports.readSharedRWMemory(j)) === 0) break;
        buff32[pos + j] = word;
      }
      pos += this.n32;""")],
  js="""const L = await K.load(); const w = K.circuit([["a", 3]]); for (const v of [[1, 2, 3], [2n ** 32n, 0, 5n], [2n ** 64n + 1n, 2n ** 200n, K.BN - 1n]]) assert.deepEqual(K.values(await L.witness.calculateWitness(w, { a: v })), [1n, ...v.map(BigInt)]);
""")
