//! The key encapsulation core, over tiny fields where every assignment and every random choice can
//! be enumerated. Groups are ideal (see stubs/ark-ec): elements carry their logarithms, so every
//! equation between group elements is decided exactly.
use ark_ec::pairing::{Ideal, PairingOutput};
use ark_ff::{Field, FftField, One, PrimeField, Zero, F13, F17, F5};
use ark_poly::EvaluationDomain;
use ark_relations::gr1cs::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::{Error as RandError, RngCore};
use mc::{explore, tier, Ctx};
use zkenc_core::{decap, encap, verify_ciphertext, Ciphertext, Key};

pub type Row<F> = [Vec<(F, usize)>; 3];
/// A circuit over variables 0 (the constant), 1..=n_pub (public), then n_priv private ones.
#[derive(Clone, Debug)]
pub struct Circ<F> { pub n_pub: usize, pub n_priv: usize, pub rows: Vec<Row<F>>, pub val: Vec<Option<F>>, pub private_first: bool }
impl<F: Field> ConstraintSynthesizer<F> for Circ<F> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()> {
        let mut vs = vec![Variable::One; 1 + self.n_pub + self.n_priv];
        let pubs = |vs: &mut Vec<Variable>| -> Result<()> { for i in 1..=self.n_pub { let v = self.val[i]; vs[i] = cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?; } Ok(()) };
        if !self.private_first { pubs(&mut vs)?; }
        for i in self.n_pub + 1..vs.len() { let v = self.val[i]; vs[i] = cs.new_witness_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?; }
        if self.private_first { pubs(&mut vs)?; }
        for r in &self.rows {
            let l = |k: usize| { let mut lc = LinearCombination::zero(); for (c, i) in &r[k] { lc = lc + (*c, vs[*i]); } lc };
            cs.enforce_r1cs_constraint(|| l(0), || l(1), || l(2))?;
        }
        Ok(())
    }
}
impl<F: PrimeField> Circ<F> {
    fn n(&self) -> usize { 1 + self.n_pub + self.n_priv }
    fn with(&self, a: &[F]) -> Self { Circ { val: a.iter().map(|x| Some(*x)).collect(), ..self.clone() } }
    fn publics(&self, a: &[F]) -> Self { let mut v: Vec<Option<F>> = vec![None; self.n()]; for i in 0..=self.n_pub { v[i] = Some(a[i]); } Circ { val: v, ..self.clone() } }
    fn sat(&self, a: &[F]) -> bool { self.rows.iter().all(|r| { let e = |k: usize| r[k].iter().map(|(c, i)| *c * a[*i]).sum::<F>(); e(0) * e(1) == e(2) }) }
}
/// All vectors of field elements of length n.
fn vectors<F: PrimeField>(n: usize) -> Vec<Vec<F>> {
    let p = F::MODULUS.as_ref()[0]; let mut v = vec![vec![]];
    for _ in 0..n { v = v.into_iter().flat_map(|x: Vec<F>| (0..p).map(move |e| { let mut y = x.clone(); y.push(F::from(e)); y })).collect(); }
    v
}
fn assignment<F: PrimeField>(publics: &[F], privates: &[F]) -> Vec<F> { let mut a = vec![F::ONE]; a.extend(publics); a.extend(privates); a }
/// Answers draws from a list, then from a fixed stream; counts draws.
pub struct Script { pub v: Vec<u64>, pub i: usize }
impl Script { pub fn new(v: Vec<u64>) -> Self { Script { v, i: 0 } } }
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let i = self.i; self.i += 1; if i < self.v.len() { self.v[i] } else { (i as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 7 } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let x = self.next_u64().to_le_bytes(); c.copy_from_slice(&x[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), RandError> { self.fill_bytes(d); Ok(()) }
}
pub fn key_of<F: PrimeField>(s: F) -> [u8; 32] { let mut b = vec![]; PairingOutput::<Ideal<F>>(s).serialize_compressed(&mut b).unwrap(); *blake3::hash(&b).as_bytes() }

/// Linear combinations that take every shortcut: empty, constant, single, scaled, sums, repeats, a zero coefficient.
fn lcs<F: PrimeField>(n: usize, many: bool) -> Vec<Vec<(F, usize)>> {
    let f = |x: u64| F::from(x); let l = n - 1;
    let mut v = vec![vec![(f(1), l)], vec![(f(1), 0)], vec![(f(2), 1.min(l)), (f(1), 0)], vec![]];
    if many { v.extend([vec![(f(1), 1.min(l))], vec![(f(3), l), (f(1), l)], vec![(f(0), l), (f(1), 1.min(l))], vec![(-f(1), l), (f(2), 1.min(l)), (f(1), 0)]]); }
    v
}
fn shape<F: PrimeField>(cx: &mut Ctx, shapes: &[(usize, usize)], max_rows: usize) -> Circ<F> {
    let (n_pub, n_priv) = *cx.pick(shapes); let n = 1 + n_pub + n_priv;
    let k = cx.choose(max_rows + 1);
    // one row: full alphabet; several: the short one
    let a = lcs::<F>(n, k == 1);
    let rows = (0..k).map(|j| if j == 0 { [cx.pick(&a).clone(), cx.pick(&a).clone(), cx.pick(&a).clone()] } else { let d = lcs::<F>(n, false); [cx.pick(&d[..2]).clone(), cx.pick(&d[..3]).clone(), cx.pick(&d).clone()] }).collect();
    Circ { n_pub, n_priv, rows, val: vec![None; n], private_first: false }
}
/// Polynomial evaluations of the documented construction at x.
fn qap<F: PrimeField>(c: &Circ<F>, x: F) -> Option<[Vec<F>; 3]> {
    let d = ark_poly::GeneralEvaluationDomain::<F>::new(c.rows.len() + 1 + c.n_pub)?;
    let l = d.evaluate_all_lagrange_coefficients(x);
    let mut o = [vec![F::ZERO; c.n()], vec![F::ZERO; c.n()], vec![F::ZERO; c.n()]];
    for (j, r) in c.rows.iter().enumerate() { for k in 0..3 { for (q, i) in &r[k] { o[k][*i] += l[j] * *q; } } }
    Some(o)
}
type Ct<F> = Ciphertext<Ideal<F>>;
/// The published queries are those of the documented construction for some r and x.
fn documented<F: PrimeField>(c: &Circ<F>, ct: &Ct<F>) -> bool {
    let k = &ct.encap_key; let (al, be, de) = (k.alpha_g1.dlog, k.beta_g2.dlog, k.delta_g2.dlog);
    let Some(di) = de.inverse() else { return false };
    let p = F::MODULUS.as_ref()[0];
    (0..p).any(|x| { let Some([u, v, w]) = qap(c, F::from(x)) else { return false };
        (0..p).any(|r| { let r = F::from(r);
            k.r_u_query_g1.len() == c.n() && k.r_v_query_g2.len() == c.n() && k.phi_delta_query_g1.len() == c.n()
            && (0..c.n()).all(|i| k.r_u_query_g1[i].dlog == r * u[i] && k.r_v_query_g2[i].dlog == r * v[i] && k.phi_delta_query_g1[i].dlog == (r * be * u[i] + r * al * v[i] + r * r * w[i]) * di) }) })
}
/// Both keys are what the documented formulas give over the published elements.
fn formulas<F: PrimeField>(c: &Circ<F>, ct: &Ct<F>, a: &[F], ke: &Key, kd: &Key) -> bool {
    let k = &ct.encap_key;
    let s = k.alpha_g1.dlog * k.beta_g2.dlog + (0..=c.n_pub).map(|i| a[i] * k.phi_delta_query_g1[i].dlog).sum::<F>();
    let aa = k.alpha_g1.dlog + (0..c.n()).map(|i| a[i] * k.r_u_query_g1[i].dlog).sum::<F>();
    let bb = k.beta_g2.dlog + (0..c.n()).map(|i| a[i] * k.r_v_query_g2[i].dlog).sum::<F>();
    let cc = (0..c.n()).map(|i| a[i] * k.phi_delta_query_g1[i].dlog).sum::<F>();
    ke.as_bytes() == &key_of(s) && kd.as_bytes() == &key_of(aa * bb - cc * k.delta_g2.dlog)
}
fn all_assigned<F>(c: &Circ<F>) -> bool { c.val.iter().skip(1).all(|v| v.is_some()) }

/// Encapsulate, then decapsulate with every satisfying assignment that has these public inputs.
fn recover<F: PrimeField>(cx: &mut Ctx, c: &Circ<F>, enc: &Circ<F>, publics: &[F], draws: Vec<u64>, privates: &[Vec<F>], reread: bool) {
    let zero_draw = draws.iter().any(|d| *d == 0);
    let what = |c: &Circ<F>| format!("{} public, {} private, rows {:?}, publics {:?}, draws {:?}", c.n_pub, c.n_priv, c.rows, publics, draws);
    let r = { let e = enc.clone(); let d = draws.clone(); cx.call(move || encap::<Ideal<F>, _, _>(e, &mut Script::new(d))) };
    let (ct, key) = match r {
        Ok(Ok(x)) => x,
        // a zero among the secrets may be refused, however that is signalled
        _ if zero_draw => { cx.outcome("zero secret refused"); return }
        Ok(Err(e)) => return cx.violation("encap:refused", format!("{}: {:?}", what(c), e)),
        Err(e) => return cx.violation("encap:panic", format!("{}: {}", what(c), e)),
    };
    cx.state(&(ct.encap_key.alpha_g1.dlog, ct.encap_key.beta_g2.dlog, ct.encap_key.delta_g2.dlog, ct.encap_key.phi_delta_query_g1.iter().map(|x| x.dlog).collect::<Vec<_>>(), key.as_bytes()));
    let mut cts = vec![("", ct.clone(), key.clone())];
    if reread {
        for (n, comp) in [(" (reread, compressed)", true), (" (reread, uncompressed)", false)] {
            let r = cx.call(|| -> std::result::Result<(Ct<F>, Key), ark_serialize::SerializationError> {
                let (mut b, mut k) = (vec![], vec![]);
                if comp { ct.serialize_compressed(&mut b)?; key.serialize_compressed(&mut k)?; Ok((Ct::<F>::deserialize_compressed(&b[..])?, Key::deserialize_compressed(&k[..])?)) }
                else { ct.serialize_uncompressed(&mut b)?; key.serialize_uncompressed(&mut k)?; Ok((Ct::<F>::deserialize_uncompressed(&b[..])?, Key::deserialize_uncompressed(&k[..])?)) } });
            match r { Ok(Ok((c2, k2))) => cts.push((n, c2, k2)), e => cx.violation("reread:failed", format!("{}{}: {:?}", what(c), n, e.map(|r| r.is_ok()))) }
        }
    }
    for p in privates {
        let a = assignment(publics, p);
        if !c.sat(&a) { continue; }
        for (n, ct, key) in &cts {
            let w = c.with(&a);
            match cx.call(|| decap::<Ideal<F>, _>(w, ct)) {
                Ok(Ok(k2)) if k2 == *key => { cx.traced(); cx.outcome("recovered"); }
                Ok(Ok(k2)) => {
                    cx.traced();
                    let known = all_assigned(enc) && documented(c, ct) && formulas(c, ct, &a, key, &k2);
                    cx.violation(if known { "key-differs:completed-synthesis" } else { "key-differs" }, format!("{}, private {:?}{}: decapsulation gives another key", what(c), p, n));
                    cx.outcome("differs");
                }
                Ok(Err(e)) => cx.violation("decap:refused", format!("{}, private {:?}{}: {:?}", what(c), p, n, e)),
                Err(e) => cx.violation("decap:panic", format!("{}, private {:?}{}: {}", what(c), p, n, e)),
            }
        }
    }
}
fn squares<F: PrimeField>() -> Vec<Circ<F>> {
    // y = w^2; y = w * v, z = w + v; a circuit without public signals; an unconstrained private one
    let o = F::ONE;
    vec![
        Circ { n_pub: 1, n_priv: 1, rows: vec![[vec![(o, 2)], vec![(o, 2)], vec![(o, 1)]]], val: vec![None; 3], private_first: false },
        Circ { n_pub: 1, n_priv: 2, rows: vec![[vec![(o, 2)], vec![(o, 3)], vec![(o, 1)]], [vec![(o, 2), (o, 3)], vec![(o, 0)], vec![(o, 1), (o, 0)]]], val: vec![None; 4], private_first: false },
        Circ { n_pub: 0, n_priv: 2, rows: vec![[vec![(o, 1)], vec![(o, 2)], vec![(o, 0)]]], val: vec![None; 3], private_first: false },
        Circ { n_pub: 2, n_priv: 1, rows: vec![], val: vec![None; 4], private_first: false },
    ]
}
/// A chain of m rows (3 w_j + s_j) * 2 w_j = 7 w_(j+1), s_j one of the p public values in turn (or one).
pub fn chain<F: PrimeField>(m: usize, p: usize) -> Circ<F> {
    let o = F::ONE; let w = |j: usize| p + 1 + j;
    Circ { n_pub: p, n_priv: m + 1, rows: (0..m).map(|j| [vec![(F::from(3u64), w(j)), (o, if p == 0 { 0 } else { 1 + j % p })], vec![(F::from(2u64), w(j))], vec![(F::from(7u64), w(j + 1))]]).collect(), val: vec![None; p + m + 2], private_first: false }
}
/// The values along the chain from w_0, where row `bad` (if any) is the only one that does not hold.
pub fn chain_values<F: PrimeField>(m: usize, p: usize, publics: &[F], w0: u64, bad: Option<usize>) -> Vec<F> {
    let mut a = assignment(publics, &[F::from(w0)]); let seventh = F::from(7u64).inverse().unwrap(); let (three, two) = (F::from(3u64), F::from(2u64));
    for j in 0..m { let w = a[p + 1 + j]; let s = if p == 0 { F::ONE } else { publics[j % p] }; let mut n = (three * w + s) * two * w * seventh; if bad == Some(j) { n += F::ONE; } a.push(n); }
    a
}
fn long(cx: &mut Ctx, verdicts: bool) {
    use ark_bn254::Fr;
    let sizes: Vec<usize> = if mc::thorough() { (0..=72).chain([100, 127, 128, 129, 255, 256, 257, 300]).collect() } else { (1..=20).chain([31, 32, 33, 63, 64, 65, 100]).collect() };
    // sizes past a byte, past 10 bits; thorough: past 12 bits
    let big: &[(usize, usize)] = tier(&[(1100, 300), (3, 1100), (600, 0), (1, 257)], &[(1100, 300), (3, 1100), (600, 0), (1, 257), (2100, 2100), (4200, 40), (300, 600), (257, 257), (512, 512), (1024, 1023)]);
    let (m, p) = if cx.flag() { *cx.pick(big) } else { let m = *cx.pick(&sizes); (m, *cx.pick(tier(&[0usize, 1, 2, 5, 17, 33], &[0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100]))) };
    let at = |n: usize, j: usize| n <= 300 || j < 2 || j + 2 >= n || [63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096].contains(&j) || j % 389 == 7;
    let c = chain::<Fr>(m, p); let publics: Vec<Fr> = (0..p).map(|i| Fr::from(i as u64 + 2)).collect(); let e = c.publics(&assignment(&publics, &vec![Fr::zero(); m + 1]));
    cx.sample(|| format!("{} rows, {} public", m, p)); cx.state(&(m, p));
    let Ok(Ok((ct, key))) = cx.call(|| encap::<Ideal<Fr>, _, _>(e, &mut Script::new(vec![]))) else { return cx.violation("encap:refused", format!("chain of {} rows, {} public", m, p)) };
    let mut tries: Vec<(Vec<Fr>, &str, String)> = [3u64, 0, 7, 1 << 40].iter().map(|w| (chain_values(m, p, &publics, *w, None), "", format!("from {}", w))).collect();
    if verdicts {
        for j in (0..m).filter(|j| at(m, *j)) { tries.push((chain_values(m, p, &publics, 3, Some(j)), "unsatisfied", format!("row {} violated", j))); }
        for i in (0..p).filter(|i| at(p, *i)) { let mut q = publics.clone(); q[i] += Fr::one(); tries.push((chain_values(m, p, &q, 3, None), "public-mismatch", format!("public input {} of {} differs", i + 1, p))); }
        for i in (0..p).filter(|i| at(p, *i)).step_by(if p > 40 { 5 } else { 1 }) { for (z, n) in [(Fr::zero(), "zero"), (-publics[i], "negated"), (publics[i] + publics[i], "doubled")] { let mut q = publics.clone(); q[i] = z; if q[i] != publics[i] { tries.push((chain_values(m, p, &q, 3, None), "public-mismatch", format!("public input {} of {} is {}", i + 1, p, n))); } } }
        for i in (1..p).filter(|i| at(p, *i)) { let mut q = publics.clone(); q.swap(i - 1, i); tries.push((chain_values(m, p, &q, 3, None), "public-mismatch", format!("public inputs {} and {} exchanged", i, i + 1))); }
    }
    for (a, bad, what) in tries {
        let w = c.with(&a); let r = cx.call(|| decap::<Ideal<Fr>, _>(w, &ct)); cx.traced(); cx.op();
        match r { Err(e) => cx.violation("decap:panic", format!("{} rows, {} public, {}: {}", m, p, what, e)),
            Ok(Ok(k)) => { if !bad.is_empty() { cx.violation(&format!("released:{}", bad), format!("{} rows, {} public: key released although {}", m, p, what)); } else { cx.check(k == key, "key-differs", || format!("{} rows, {} public, {}", m, p, what)); } cx.outcome("recovered"); }
            Ok(Err(e)) => { cx.check(!bad.is_empty(), "decap:refused", || format!("{} rows, {} public, {}: {:?}", m, p, what, e)); cx.outcome("refused"); } }
    }
}
pub fn c01() {
    explore("long", "chains of up to 100 (thorough 300) rows with up to 33 (thorough 100) public inputs over BN254, and some of up to 1100 (thorough 4200) rows or public inputs (there at about 25 places each): four satisfying assignments each", 0, |cx| long(cx, false));
    fn randomness<F: PrimeField + FftField>(name: &str, vals: &[u64]) {
        let cs = squares::<F>();
        explore(name, &format!("4 circuits, every public input, five draws each from {:?} ({} values), every satisfying assignment", vals, vals.len()), 0, |cx| {
            let c = cx.pick(&cs); let pv = vectors::<F>(c.n_pub); let publics = if pv.len() > 30 { cx.pick(&pv[..5]) } else { cx.pick(&pv) };
            let d: Vec<u64> = (0..5).map(|_| *cx.pick(vals)).collect();
            cx.sample(|| format!("{:?} public {:?} draws {:?}", c.rows, publics, d));
            let pr = vectors::<F>(c.n_priv);
            recover(cx, c, &c.publics(&assignment(publics, &vec![F::ZERO; c.n_priv])), publics, d, &pr, false);
        });
    }
    randomness::<F5>("all-randomness-5", &[1, 2, 3, 4, 0]);
    if mc::thorough() { randomness::<F13>("all-randomness-13", &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]); } else { randomness::<F13>("some-randomness-13", &[1, 5, 12]); }
    let shapes: &[(usize, usize)] = tier(&[(1, 1), (2, 1), (0, 1), (1, 2)], &[(1, 1), (2, 1), (0, 1), (1, 2), (2, 2), (0, 2), (3, 1)]);
    explore("circuits", &format!("every circuit of shapes {:?} (public, private) with up to two rows over the alphabet of linear combinations, every public input and satisfying assignment, re-read ciphertexts", shapes), 0, |cx| {
        let c = shape::<F5>(cx, shapes, 2); let pv = vectors::<F5>(c.n_pub); let publics = cx.pick(&pv);
        let pr = vectors::<F5>(c.n_priv);
        cx.sample(|| format!("{:?} public {:?}", c.rows, publics));
        recover(cx, &c, &c.publics(&assignment(publics, &vec![F5::zero(); c.n_priv])), publics, vec![1, 2, 3, 4, 2], &pr, true);
    });
    explore("completed", "circuits whose synthesis completes at encapsulation (no private wires, or a full assignment supplied)", 0, |cx| {
        let c = shape::<F17>(cx, &[(1, 0), (2, 0), (1, 1), (3, 0)], 2); let vals = [1u64, 2, 0, 16, 7];
        let publics: Vec<F17> = (0..c.n_pub).map(|_| F17::from(*cx.pick(&vals[..3]))).collect();
        let pr: Vec<Vec<F17>> = if c.n_priv == 0 { vec![vec![]] } else { vals.iter().map(|v| vec![F17::from(*v)]).collect() };
        let p = cx.pick(&pr).clone();
        let a = assignment(&publics, &p);
        if !c.sat(&a) { cx.outcome("unsatisfied"); return; }
        let d = cx.pick(&[vec![3u64, 5, 7, 2, 11], vec![1, 1, 1, 1, 6]]).clone();
        let enc = c.with(&a);
        recover(cx, &c, &enc, &publics, d, &[p], true);
    });
}
pub fn c02() {
    explore("long", "chains of up to 100 (thorough 300) rows with up to 33 (thorough 100) public inputs over BN254, and some of up to 1100 (thorough 4200) rows or public inputs (there at about 25 places each): each row violated alone, each public input changed alone (and the rest satisfied), neighbouring ones exchanged: refused; satisfying assignments: the key", 0, |cx| long(cx, true));
    let shapes: &[(usize, usize)] = tier(&[(1, 1), (2, 1), (1, 2), (0, 1)], &[(1, 1), (2, 1), (0, 1), (1, 2), (2, 2), (3, 1)]);
    explore("verdicts", &format!("every circuit of shapes {:?} with up to {} rows, every assignment of every wire over F_5, ciphertexts for several public inputs", shapes, 2), 0, |cx| {
        let c = shape::<F5>(cx, shapes, 2); let pv = vectors::<F5>(c.n_pub);
        let own: Vec<&Vec<F5>> = if pv.len() == 1 { vec![&pv[0]] } else { vec![&pv[0], &pv[pv.len() - 2], &pv[1]] };
        let own = cx.pick(&own[..own.len().min(tier(2, 3))]).to_vec();
        let e = c.publics(&assignment(&own, &vec![F5::zero(); c.n_priv]));
        let Ok(Ok((ct, key))) = cx.call(|| encap::<Ideal<F5>, _, _>(e, &mut Script::new(vec![1, 2, 3, 4, 2]))) else { cx.violation("encap:refused", format!("{:?} {:?}", c.rows, own)); return };
        cx.sample(|| format!("{:?} for {:?}", c.rows, own));
        let pr = vectors::<F5>(c.n_priv);
        for pb in &pv { for p in &pr {
            let a = assignment(pb, p); let want = c.sat(&a) && *pb == own;
            let w = c.with(&a);
            let r = cx.call(|| decap::<Ideal<F5>, _>(w, &ct));
            cx.state(&(&c.rows.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>(), &a, want)); cx.traced();
            match r {
                Ok(Ok(k)) => { cx.outcome("released"); if want { cx.check(k == key, "wrong-key", || format!("{:?} {:?}: another key", c.rows, a)); } else {
                    let why = if !c.sat(&a) { "unsatisfied" } else { "public-mismatch" };
                    cx.violation(&format!("released:{}", why), format!("rows {:?}: key released for assignment {:?}, ciphertext for {:?}", c.rows, a, own)); } }
                Ok(Err(_)) => { cx.outcome("refused"); cx.check(!want, "refused:valid", || format!("rows {:?}: valid assignment {:?} refused", c.rows, a)); }
                Err(e) => cx.violation("decap:panic", format!("rows {:?} assignment {:?}: {}", c.rows, a, e)),
            }
        } }
    });
    explore("many-rows", "a circuit of n independent rows x_i * 1 = i+1 (n up to 6), every single and double wrong wire", 0, |cx| {
        let n = 1 + cx.choose(6); let n_pub = cx.choose(n + 1).min(n); let o = F17::one();
        let rows: Vec<Row<F17>> = (1..=n).map(|i| [vec![(o, i)], vec![(o, 0)], vec![(F17::from(i as u64 + 1), 0)]]).collect();
        let c = Circ { n_pub, n_priv: n - n_pub, rows, val: vec![None; n + 1], private_first: false };
        let good: Vec<F17> = std::iter::once(o).chain((1..=n).map(|i| F17::from(i as u64 + 1))).collect();
        let mut a = good.clone(); let i = cx.choose(n + 1); let j = cx.choose(n + 1);
        if i > 0 { a[i] += F17::from(*cx.pick(&[1u64, 16])); } if j > i { a[j] += F17::from(3u64); }
        // the ciphertext may be for the good or for the altered public inputs
        let for_altered = cx.flag();
        let e = c.publics(if for_altered { &a } else { &good });
        let Ok(Ok((ct, _))) = cx.call(|| encap::<Ideal<F17>, _, _>(e, &mut Script::new(vec![3, 5, 7, 2, 11]))) else { cx.outcome("not encapsulated"); return };
        let want = a == good;
        let w = c.with(&a); let r = cx.call(|| decap::<Ideal<F17>, _>(w, &ct)); cx.traced(); cx.state(&(&a, for_altered));
        match r { Ok(Ok(_)) => { cx.check(want, "released:unsatisfied", || format!("{} rows: key released for {:?}", n, a)); } Ok(Err(_)) => { cx.check(!want, "refused:valid", || format!("{:?}", a)); } Err(e) => cx.violation("decap:panic", e) }
    });
    explore("public-count", "ciphertexts whose list of public inputs is shorter or longer than the circuit's, every prefix and one-element extension", 0, |cx| {
        let n_pub = cx.choose(4); let m = cx.choose(5); let o = F5::one();
        // the other ciphertext's circuit has m public inputs with the same leading values
        let mk = |k: usize| Circ::<F5> { n_pub: k, n_priv: 1, rows: vec![[vec![(o, k + 1)], vec![(o, 0)], vec![(o, k + 1)]]], val: vec![None; k + 2], private_first: false };
        let vals: Vec<F5> = (0..5).map(|i| F5::from(i as u64 + 1)).collect();
        let tail = cx.choose(5);
        let mut mv = vals[..m].to_vec(); if m > 0 && cx.flag() { mv[m - 1] = F5::from(tail as u64); }
        let e = mk(m); let e = e.publics(&assignment(&mv, &[F5::zero()]));
        let Ok(Ok((ct, _))) = cx.call(|| encap::<Ideal<F5>, _, _>(e, &mut Script::new(vec![1, 2, 3, 4, 2]))) else { cx.violation("encap:refused", format!("{:?}", mv)); return };
        let c = mk(n_pub); let a = assignment(&vals[..n_pub], &[F5::from(tail as u64)]);
        let want = mv == vals[..n_pub];
        let w = c.with(&a); let r = cx.call(|| decap::<Ideal<F5>, _>(w, &ct)); cx.traced(); cx.state(&(n_pub, &mv, tail));
        match r { Ok(Ok(_)) => { let sig = if vals[..n_pub].starts_with(&mv) { "released:fewer-recorded" } else if mv.starts_with(&vals[..n_pub]) { "released:more-recorded" } else { "released:public-differs" }; cx.check(want, sig, || format!("circuit with public inputs {:?} opens a ciphertext that records {:?}", &vals[..n_pub], mv)); } Ok(Err(_)) => { cx.check(!want, "refused:valid", || format!("{:?}", a)); } Err(e) => cx.violation("decap:panic", e) }
    });
}
pub fn c03() {
    explore("core-missing", "circuits with up to 4 public and 2 private signals, every subset of public signals without a value, private signals with or without values, with and without a row, either allocation order", 0, |cx| {
        let n_pub = cx.choose(tier(4, 5)); let n_priv = cx.choose(3); let private_first = n_priv > 0 && cx.flag(); let row = cx.flag();
        let n = 1 + n_pub + n_priv; let o = F17::one();
        let mut val = vec![Some(o)]; let mut all = true;
        for i in 1..=n_pub { let v = *cx.pick(&[Some(0u64), Some(i as u64 + 1), None]); all &= v.is_some(); val.push(v.map(F17::from)); }
        let privs = n_priv > 0 && cx.flag(); for i in 0..n_priv { val.push(if privs { Some(F17::from(i as u64)) } else { None }); }
        let rows = if row { vec![[vec![(o, n - 1)], vec![(o, 0)], vec![(o, n - 1)]]] } else { vec![] };
        let want: Vec<F17> = val[1..=n_pub].iter().flatten().cloned().collect();
        let c = Circ { n_pub, n_priv, rows, val: val.clone(), private_first };
        let r = cx.call(|| encap::<Ideal<F17>, _, _>(c, &mut Script::new(vec![3, 5, 7, 2, 11])));
        cx.traced(); cx.state(&(&val, n_pub, private_first, row));
        let what = format!("public values {:?}, {} private ({}){}", &val[1..=n_pub], n_priv, if privs { "known" } else { "unknown" }, if private_first { ", private allocated first" } else { "" });
        cx.sample(|| what.clone());
        match r {
            Ok(Ok((ct, _))) => {
                cx.outcome("encapsulated");
                if ct.public_inputs == want && all { return; }
                let sig = if private_first && !privs && ct.public_inputs.is_empty() { "core:private-first" } else if !all { "core:undetermined" } else { "core:wrong-publics" };
                cx.violation(sig, format!("{}: ciphertext records {:?}", what, ct.public_inputs));
            }
            Ok(Err(e)) => { cx.outcome("refused"); cx.check(!all || (private_first && !privs), "core:refused", || format!("{}: refused {:?}", what, e)); }
            Err(e) => cx.violation("core:panic", format!("{}: {}", what, e)),
        }
    });
}
pub fn c04() {
    // the published secrets over all equally likely draws
    explore("secrets", "all 4^5 non-zero draws over F_5 for a circuit whose elements show all five secrets: joint distribution of the published elements", 0, |cx| {
        use std::collections::{BTreeMap, BTreeSet};
        let o = F5::one(); let which = cx.choose(2);
        let c = Circ { n_pub: 1, n_priv: 0, rows: vec![[vec![(o, 1)], vec![(o, 0)], vec![(o, 1)]], [vec![(o, 0)], vec![(o, 1)], vec![(o, 1)]]], val: vec![Some(o), Some(o)], private_first: false };
        let c = if which == 0 { c } else { Circ { n_priv: 1, val: vec![Some(o), Some(o), None], ..c } };
        let mut triples: BTreeMap<[u64; 3], u64> = BTreeMap::new(); let mut queries: BTreeMap<[u64; 3], BTreeSet<Vec<u64>>> = BTreeMap::new(); let mut keys = BTreeSet::new();
        let f = |x: F5| x.into_bigint().0[0]; let mut n = 0u64;
        for i in 0..1024u64 {
            let d: Vec<u64> = (0..5).map(|k| (i >> (2 * k)) % 4 + 1).collect(); let c = c.clone();
            let (ct, key) = match cx.call(|| encap::<Ideal<F5>, _, _>(c, &mut Script::new(d.clone()))) { Ok(Ok(x)) => x, r => { cx.violation("secrets:refused", format!("draws {:?}: {:?}", d, r.map(|x| x.map(|_| ()).map_err(|e| format!("{:?}", e))))); return } };
            let k = &ct.encap_key; let t = [f(k.alpha_g1.dlog), f(k.beta_g2.dlog), f(k.delta_g2.dlog)];
            *triples.entry(t).or_default() += 1; n += 1;
            queries.entry(t).or_default().insert(k.r_u_query_g1.iter().chain(&k.phi_delta_query_g1).map(|x| f(x.dlog)).chain(k.r_v_query_g2.iter().map(|x| f(x.dlog))).collect());
            keys.insert(*key.as_bytes()); cx.state(&(d, t)); cx.traced();
        }
        cx.check(triples.len() == 64 && triples.values().all(|v| *v == n / 64), "secrets:not-independent", || format!("alpha, beta, delta take {} of 64 combinations over equally likely draws: {:?}", triples.len(), triples.iter().take(8).collect::<Vec<_>>()));
        if which == 0 {
            // how many different queries the documented construction has for a given triple
            for (t, q) in &queries {
                let mut want = BTreeSet::new();
                for r in 1..5u64 { for x in 1..5u64 { let [u, v, w] = qap(&c, F5::from(x)).unwrap(); let (r, al, be, di) = (F5::from(r), F5::from(t[0]), F5::from(t[1]), F5::from(t[2]).inverse().unwrap());
                    want.insert((0..2).map(|i| f(r * u[i])).chain((0..2).map(|i| f((r * be * u[i] + r * al * v[i] + r * r * w[i]) * di))).chain((0..2).map(|i| f(r * v[i]))).collect::<Vec<u64>>()); } }
                if !cx.check(q.len() >= want.len(), "secrets:r-x", || format!("for secrets {:?} only {} different query vectors are published, the two remaining secrets give {}", t, q.len(), want.len())) { break; }
            }
        }
        cx.check(keys.len() >= 4, "secrets:keys", || format!("only {} keys", keys.len()));
        cx.sample(|| format!("{} triples, {} keys", triples.len(), keys.len()));
        cx.outcome("enumerated");
    });
}
pub fn c05() {
    explore("derivations", "circuits of every shape, completed or not, every public input over F_5: key compared with every combination of at most two pairings of published elements with coefficients from -1, 1 and the public inputs, and all published-element sums the formulas use", 0, |cx| {
        // over a large field a match is no coincidence
        type F = ark_ff::Bn254Fr;
        let (n_pub, n_priv) = *cx.pick(&[(1usize, 1usize), (2, 1), (0, 1), (1, 0), (2, 0), (1, 2)]); let o = F::one(); let n = 1 + n_pub + n_priv;
        let known = cx.flag(); let rows = vec![[vec![(o, n - 1)], vec![(o, 0)], vec![(o, n - 1)]], [vec![(o, 1)], vec![(o, n - 1)], vec![(o, 1)]]];
        let pv: Vec<F> = (0..n_pub).map(|i| F::from(*cx.pick(&[3u64, 1, 0]) + 1000003 * i as u64)).collect();
        let mut val: Vec<Option<F>> = assignment(&pv, &vec![o; n_priv]).into_iter().map(Some).collect();
        if !known { for v in val.iter_mut().skip(1 + n_pub) { *v = None; } }
        let complete = val.iter().all(|v| v.is_some());
        let c = Circ { n_pub, n_priv, rows, val, private_first: false };
        let seed = cx.choose(2) as u64 + 1;
        ark_ff::sampled::take();
        let r = cx.call(|| { use ark_std::rand::SeedableRng; let mut g = ark_std::rand::rngs::StdRng::seed_from_u64(seed); encap::<Ideal<F>, _, _>(c, &mut g) });
        let secrets = ark_ff::sampled::take();
        let Ok(Ok((ct, key))) = r else { cx.outcome("refused"); return };
        cx.traced(); cx.state(key.as_bytes());
        let k = &ct.encap_key;
        let mut g1 = vec![("g1".to_string(), o), ("alpha_g1".into(), k.alpha_g1.dlog)]; let mut g2 = vec![("g2".to_string(), o), ("beta_g2".into(), k.beta_g2.dlog), ("delta_g2".into(), k.delta_g2.dlog)];
        let sum = |q: &[ark_bn254::G1Affine], from: usize, to: usize| { let a = assignment(&pv, &vec![]); (from..to.min(q.len()).min(a.len())).map(|i| a[i] * q[i].dlog).sum::<F>() };
        g1.push(("sum phi*public".into(), sum(&k.phi_delta_query_g1, 0, n))); g1.push(("sum ru*public".into(), sum(&k.r_u_query_g1, 0, n)));
        for (i, p) in k.r_u_query_g1.iter().enumerate() { g1.push((format!("ru[{}]", i), p.dlog)); }
        for (i, p) in k.phi_delta_query_g1.iter().enumerate() { g1.push((format!("phi[{}]", i), p.dlog)); }
        for (i, p) in k.h_query_g1.iter().enumerate() { g1.push((format!("h[{}]", i), p.dlog)); }
        for (i, p) in k.r_v_query_g2.iter().enumerate() { g2.push((format!("rv[{}]", i), p.dlog)); }
        let mut coef = vec![("".to_string(), o), ("-".into(), -o)]; for (i, p) in pv.iter().enumerate() { coef.push((format!("a{}*", i), *p)); }
        let mut terms: Vec<(String, F)> = vec![];
        for (a, x) in &g1 { for (b, y) in &g2 { let v = *x * *y; if !v.is_zero() { for (c, s) in &coef { terms.push((format!("{}e({},{})", c, a, b), v * *s)); } } } }
        let kb = *key.as_bytes();
        let mut found: Vec<String> = vec![];
        if kb == key_of(F::zero()) { found.push("0".into()); }
        for (n, v) in &terms { if kb == key_of(*v) { found.push(n.clone()); break; } }
        if found.is_empty() { 'o: for (i, (n, v)) in terms.iter().enumerate() { for (m, w) in &terms[i..] { if kb == key_of(*v + *w) { found.push(format!("{}+{}", n, m)); break 'o; } } } }
        cx.ops((terms.len() * terms.len() / 2) as u64);
        if let Some(f) = found.first() {
            cx.outcome("derivable");
            let sig = match f.as_str() { "e(alpha_g1,beta_g2)" => "derivable:e(alpha_g1,beta_g2)".to_string(), "e(g1,g2)" | "0" => format!("derivable:{}", f), "e(alpha_g1,beta_g2)+e(sum phi*public,g2)" | "e(sum phi*public,g2)+e(alpha_g1,beta_g2)" | "e(g1,g2)+e(alpha_g1,beta_g2)" if complete => "derivable:e(alpha_g1,beta_g2)+e(sum phi*public,g2)".into(), _ => if f.contains("alpha_g1") && f.contains("e(alpha_g1,beta_g2)") && complete { "derivable:e(alpha_g1,beta_g2)+e(sum phi*public,g2)".into() } else { format!("derivable:{}", f) } };
            cx.violation(&sig, format!("key = H({}) for {} public, {} private wires{}", f, n_pub, n_priv, if complete { ", complete assignment" } else { "" }));
        } else { cx.outcome("not derivable"); }
        // nothing secret in the published bytes
        let mut b = vec![]; let mut b2 = vec![];
        if cx.call(|| { ct.serialize_compressed(&mut b).is_ok() && ct.serialize_uncompressed(&mut b2).is_ok() }) != Ok(true) { cx.violation("serialize", "ciphertext cannot be serialized".into()); return; }
        for (n, b) in [("compressed", &b), ("uncompressed", &b2)] {
            cx.check(!contains(b, &kb), "leak:key", || format!("the key's bytes appear in the {} ciphertext", n));
            for (i, s) in secrets.iter().enumerate() { let le: Vec<u8> = s.iter().flat_map(|l| l.to_le_bytes()).collect(); let mut be = le.clone(); be.reverse();
                cx.check(!contains(b, &le) && !contains(b, &be), "leak:secret", || format!("secret number {} sampled by the encapsulation appears in the {} ciphertext", i, n)); }
        }
        for (n, x) in g1.iter().chain(g2.iter()).skip(1) { if n != "g2" && n.len() < 12 && !x.is_zero() { cx.check(*x != o, "leak:generator", || format!("{} is the bare generator", n)); } }
        cx.check(pv.len() == ct.public_inputs.len(), "leak:publics", || "unexpected entries among the public inputs".into());
    });
}
pub fn contains(h: &[u8], n: &[u8]) -> bool { !n.is_empty() && h.windows(n.len()).any(|w| w == n) }

pub fn c20() {
    let base = |publics: &[F5]| -> Option<Ct<F5>> {
        let k = publics.len(); let c = Circ::<F5> { n_pub: k, n_priv: 1, rows: vec![], val: vec![None; k + 2], private_first: false };
        let c = c.publics(&assignment(publics, &[F5::zero()]));
        mc::guarded(|| encap::<Ideal<F5>, _, _>(c, &mut Script::new(vec![1, 2, 3, 4, 2]))).ok()?.ok().map(|x| x.0)
    };
    let lists: Vec<Vec<F5>> = (0..=tier(3, 4)).flat_map(vectors::<F5>).collect();
    explore("lists", &format!("all pairs of lists of F_5 elements of length up to {}", tier(3, 4)), 0, |cx| {
        let l = cx.pick(&lists); let Some(ct) = base(l) else { cx.violation("verify:no-ciphertext", format!("{:?}", l)); return };
        for e in &lists {
            let r = cx.call(|| verify_ciphertext::<Ideal<F5>>(&ct, e)); cx.traced(); cx.state(&(l, e));
            match r { Ok(v) => { cx.outcome(if v { "accepted" } else { "rejected" }); cx.check(v == (l == e), if v { "verify:accepts" } else { "verify:rejects" }, || format!("recorded {:?}, expected {:?}: {}", l, e, v)); } Err(p) => cx.violation("verify:panic", format!("recorded {:?}, expected {:?}: {}", l, e, p)) }
        }
        cx.sample(|| format!("{:?} against {} lists", l, lists.len()));
    });
    explore("long-lists", "lists of up to 40 elements over BN254: equal, one element changed at every position, two elements exchanged, prefix, extension", 0, |cx| {
        type F = ark_ff::Bn254Fr; let n = *cx.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 40]);
        let l: Vec<F> = (0..n).map(|i| F::from(i as u64).pow([9u64]) - F::from(5u64)).collect();
        let c = Circ::<F> { n_pub: n, n_priv: 1, rows: vec![], val: vec![None; n + 2], private_first: false }; let c = c.publics(&assignment(&l, &[F::zero()]));
        let Ok(Ok((ct, _))) = cx.call(|| encap::<Ideal<F>, _, _>(c, &mut Script::new(vec![1; 64]))) else { cx.violation("verify:no-ciphertext", format!("{}", n)); return };
        let mut e = l.clone(); let want;
        match cx.choose(5) { 0 => want = true, 1 => { let i = cx.choose(n); let d = *cx.pick(&[1u64, 1 << 63]); e[i] += F::from(d) * if cx.flag() { F::from(1u64 << 63).square().square() } else { F::one() }; want = false } 2 => { let i = cx.choose(n); let j = cx.choose(n); e.swap(i, j); want = i == j } 3 => { let k = cx.choose(n); e.truncate(k); want = false } _ => { e.push(*cx.pick(&[F::zero(), F::one()])); want = false } }
        let r = cx.call(|| verify_ciphertext::<Ideal<F>>(&ct, &e)); cx.traced(); cx.state(&e);
        cx.check(r == Ok(want), if want { "verify:rejects" } else { "verify:accepts" }, || format!("{} recorded, verdict {:?}, expected {}", n, r, want));
    });
    explore("encodings", "ciphertexts of circuits of several shapes: compressed and uncompressed round trip, every truncation, keys and their truncations", 0, |cx| {
        let (np, nv, comp) = *cx.pick(&[(0usize, 1usize, false), (1, 1, false), (3, 2, false), (1, 0, true), (2, 1, true), (3, 0, true)]); let compressed = cx.flag();
        let a: Vec<F17> = (0..1 + np + nv).map(|i| F17::from(i as u64 + 1)).collect(); let o = F17::one();
        let c = Circ { n_pub: np, n_priv: nv, rows: vec![[vec![(o, 0)], vec![(o, np + nv)], vec![(o, np + nv)]], [vec![(o, 1)], vec![(F17::from(2u64), 0)], vec![(F17::from(2u64), 1)]]], val: vec![None; 1 + np + nv], private_first: false };
        let c = if comp { c.with(&a) } else { c.publics(&a) };
        let Ok(Ok((ct, key))) = cx.call(|| encap::<Ideal<F17>, _, _>(c, &mut Script::new(vec![3, 5, 7, 2, 11]))) else { cx.violation("verify:no-ciphertext", format!("{} {}", np, nv)); return };
        let ser = |c: bool| mc::guarded(|| { let (mut b, mut k) = (vec![], vec![]); if c { ct.serialize_compressed(&mut b).ok()?; key.serialize_compressed(&mut k).ok()?; } else { ct.serialize_uncompressed(&mut b).ok()?; key.serialize_uncompressed(&mut k).ok()?; } Some((b, k)) });
        let Ok(Some((b, k))) = ser(compressed) else { cx.violation("encoding:fails", "serialization".into()); return };
        cx.check(b.len() == if compressed { ct.compressed_size() } else { ct.uncompressed_size() }, "encoding:size", || "announced size differs".into());
        let dec = |b: &[u8]| mc::guarded(|| if compressed { Ct::<F17>::deserialize_compressed(b).ok() } else { Ct::<F17>::deserialize_uncompressed(b).ok() });
        let deck = |b: &[u8]| mc::guarded(|| if compressed { Key::deserialize_compressed(b).ok() } else { Key::deserialize_uncompressed(b).ok() });
        match dec(&b) { Ok(Some(c2)) => { cx.check(c2 == ct, "encoding:differs", || format!("{:?} read back as {:?}", ct, c2)); 
            // field by field, whatever the code's own equality compares
            let (p, q) = (&ct.encap_key, &c2.encap_key);
            cx.check(p.alpha_g1 == q.alpha_g1 && p.beta_g2 == q.beta_g2 && p.delta_g2 == q.delta_g2 && p.r_u_query_g1 == q.r_u_query_g1 && p.r_v_query_g2 == q.r_v_query_g2 && p.phi_delta_query_g1 == q.phi_delta_query_g1 && p.h_query_g1 == q.h_query_g1 && ct.public_inputs == c2.public_inputs, "encoding:differs", || "a field differs after reading back".into()); }
            r => cx.violation("encoding:unreadable", format!("own encoding not readable: {:?}", r.map(|x| x.is_some()))) }
        match deck(&k) { Ok(Some(k2)) => { cx.check(k2.as_bytes() == key.as_bytes(), "encoding:key", || "key differs".into()); } _ => cx.violation("encoding:key", "key not readable".into()) }
        cx.check(k.len() == 32 && k[..] == key.as_bytes()[..], "encoding:key", || format!("key encoded in {} bytes", k.len()));
        for n in 0..b.len() { cx.op(); cx.traced(); cx.state(&b[..n]); match dec(&b[..n]) { Ok(None) => cx.outcome("refused"), Ok(Some(_)) => cx.violation("encoding:cut", format!("ciphertext cut to {} of {} bytes accepted", n, b.len())), Err(e) => cx.violation("encoding:panic", e) } }
        for n in 0..k.len() { cx.op(); if deck(&k[..n]) != Ok(None) { cx.violation("encoding:cut", format!("key cut to {} bytes accepted", n)); } }
    });
    explore("keys", "every byte value at every position of a key", 0, |cx| {
        let i = cx.choose(32); let v = cx.choose(256) as u8; let mut b = [0x5au8; 32]; b[i] = v; b[31 - i] ^= 0x11;
        let r = cx.call(|| { let k = Key::new(b); let mut o = vec![]; k.serialize_compressed(&mut o).unwrap(); (*k.as_bytes(), Key::deserialize_compressed(&o[..]).map(|k| *k.as_bytes()).ok(), o) });
        cx.traced(); cx.state(&b);
        cx.check(r == Ok((b, Some(b), b.to_vec())), "encoding:key", || format!("{:?} became {:?}", b, r));
    });
}

/// The published queries are the documented encoding of the circuit for these secrets.
fn encodes<F: PrimeField>(c: &Circ<F>, ct: &Ct<F>, rs: &[F], x: F) -> bool {
    let k = &ct.encap_key; let (al, be, de) = (k.alpha_g1.dlog, k.beta_g2.dlog, k.delta_g2.dlog); let n = c.n();
    let (Some(di), Some([u, v, w])) = (de.inverse(), qap(c, x)) else { return false };
    k.r_u_query_g1.len() == n && k.r_v_query_g2.len() == n && k.phi_delta_query_g1.len() == n
        && rs.iter().any(|r| (0..n).all(|i| { let r = *r; k.r_u_query_g1[i].dlog == r * u[i] && k.r_v_query_g2[i].dlog == r * v[i] && k.phi_delta_query_g1[i].dlog == (r * be * u[i] + r * al * v[i] + r * r * w[i]) * di }))
}
fn encoding_verdict<F: PrimeField>(cx: &mut Ctx, c: &Circ<F>, enc: &Circ<F>, ct: &Ct<F>, ok: bool, what: String) {
    let k = &ct.encap_key; cx.traced(); cx.op();
    let zero = k.r_u_query_g1.iter().chain(&k.phi_delta_query_g1).all(|x| x.dlog.is_zero()) && k.r_v_query_g2.iter().all(|x| x.dlog.is_zero());
    cx.outcome(if ok { "encoded" } else if zero { "all zero" } else { "not encoded" });
    if !ok { cx.violation(if !all_assigned(enc) && zero { "crs:incomplete-synthesis" } else { "crs:wrong" }, format!("{}: the published queries ({} variables, {} elements{}) are not the circuit's", what, c.n(), k.r_u_query_g1.len(), if zero { ", all zero" } else { "" })); }
}
pub fn c21() {
    fn small<F: PrimeField>(name: &str, shapes: &[(usize, usize)], rows: usize) {
        explore(name, &format!("all circuits of the alphabet with up to {} rows over F_{} and shapes (public, private) {:?}, complete assignments and public values only, 12 choices of the secrets: the published elements against the documented encoding for every r and x", rows, F::MODULUS.as_ref()[0], shapes), 0, |cx| {
            let c = shape::<F>(cx, shapes, rows); let whole = cx.flag(); let p = F::MODULUS.as_ref()[0];
            if qap(&c, F::from(2u64)).is_none() { cx.outcome("no domain"); return; }
            let a: Vec<F> = (0..c.n()).map(|i| if i == 0 { F::ONE } else { F::from(i as u64 + 1) }).collect(); let e = if whole { c.with(&a) } else { c.publics(&a) };
            for s in 0..12u64 { let d: Vec<u64> = [s * 7 + 1, s * 3 + 2, s * 5 + 1, s / 4 * 2 + 1, s + 2].iter().map(|v| v % (p - 1) + 1).collect();
                let what = format!("{} public, {} private, rows {:?}, draws {:?}", c.n_pub, c.n_priv, c.rows, d); cx.state(&(&what, whole));
                let en = e.clone(); let dr = d.clone(); match cx.call(move || encap::<Ideal<F>, _, _>(en, &mut Script::new(dr))) {
                    Ok(Ok((ct, _))) => { let ok = documented(&c, &ct); encoding_verdict(cx, &c, &e, &ct, ok, what) } r => cx.violation("encap:refused", format!("{}: {:?}", what, r.map(|x| x.is_ok()))) } }
        });
    }
    small::<F5>("small F5", &[(0, 0), (1, 0), (0, 1), (1, 1), (2, 0)], 2);
    small::<F13>("small F13", &[(1, 0), (1, 1), (2, 1)], tier(1, 2)); small::<F17>("small F17", &[(1, 0), (1, 1), (3, 2)], tier(1, 2));
    use ark_bn254::Fr;
    explore("large", "chains of up to 1100 (thorough 4200) rows and up to 1100 public values over BN254, rows of many terms, repeated wires, zero and opposite coefficients: the published elements against the documented encoding for the sampled secrets", 0, |cx| {
        let sizes: &[(usize, usize)] = tier(&[(1, 0), (2, 1), (3, 3), (4, 0), (5, 2), (7, 1), (8, 8), (15, 1), (16, 0), (31, 5), (63, 1), (64, 65), (100, 33), (255, 1), (256, 256), (257, 3), (600, 0), (1100, 300), (3, 1100)], &[(1, 0), (2, 1), (3, 3), (4, 0), (5, 2), (7, 1), (8, 8), (15, 1), (16, 0), (31, 5), (63, 1), (64, 65), (100, 33), (127, 127), (128, 1), (255, 1), (256, 256), (257, 3), (511, 0), (512, 513), (600, 0), (1023, 1), (1024, 1024), (1100, 300), (3, 1100), (2100, 2100), (4200, 40)]);
        let (m, p) = *cx.pick(sizes); let kind = cx.choose(3); let mut c = chain::<Fr>(m, p); let n = c.n(); let f = |x: u64| Fr::from(x);
        if kind == 1 { for (j, r) in c.rows.iter_mut().enumerate() { for k in 0..3 { for t in 0..(j * 7 + k) % 5 { let w = (j * 31 + k * 17 + t * t * 5) % n; r[k].push((f((j + t) as u64 % 4) - f(1), w)); } if j % 11 == k { r[k].clear(); } } } }
        if kind == 2 { for (j, r) in c.rows.iter_mut().enumerate() { for k in 0..3 { let w = (j + k) % n; r[k].push((f(9), w)); r[k].push((-f(9), w)); r[k].push((f(5), w)); if j % 16 == 3 { r[k] = (0..n.min(300)).map(|i| (f(i as u64 * 3 + k as u64), (i * 7 + j) % n)).collect(); } } } }
        let a: Vec<Fr> = (0..n).map(|i| if i == 0 { Fr::one() } else { f(i as u64 * i as u64 + 3) }).collect(); let e = c.with(&a); let _ = ark_ff::sampled::take(); cx.state(&(m, p, kind)); cx.sample(|| format!("{} rows, {} public, kind {}", m, p, kind));
        let en = e.clone(); match cx.call(move || encap::<Ideal<Fr>, _, _>(en, &mut Script::new(vec![]))) {
            Ok(Ok((ct, _))) => { let sec: Vec<Fr> = ark_ff::sampled::take().iter().map(|l| crate::util::fr(&l.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>())).collect();
                // r and x are among the sampled values
                let ok = sec.iter().any(|x| encodes(&c, &ct, &sec, *x));
                encoding_verdict(cx, &c, &e, &ct, ok, format!("{} rows, {} public, kind {}", m, p, kind)) }
            r => cx.violation("encap:refused", format!("{} rows, {} public: {:?}", m, p, r.map(|x| x.is_ok()))) }
    });
}
