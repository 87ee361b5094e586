//! The JavaScript bindings' Rust side and the circuit adapters.
use crate::util::*;
use ark_bn254::{Bn254, Fr};
use ark_ff::{One, Zero};
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem};
use mc::alloc::peak;
use mc::formats::*;
use mc::{explore, tier, Ctx};
use zkenc_cli::circuit::CircomCircuit;

fn lc(v: &[(u32, Vec<u8>)]) -> Lc { v.to_vec() }
fn allowed(len: usize) -> u64 { (1 << 20) + 400 * len as u64 }
/// Encapsulate through the bindings and compare with the core applied to the model itself.
fn brief(m: &R1cs) -> String { let mut t = format!("{:?}", m); if t.len() > 4000 { t = t.chars().take(4000).collect::<String>() + ".."; } t }
fn js_matches(cx: &mut Ctx, m: &R1cs, bytes: &[u8], publics: &[Fr], tag: &str) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut a = vec![Fr::one()]; a.extend(publics);
    secrets(); let r = js_encap(bytes, &wtns(&a)); let s = secrets(); cx.op(); cx.traced();
    match r {
        Err(e) => { cx.violation(&format!("{}:js:panic", tag), format!("{}: {}", brief(m), e)); None }
        Ok(Err(e)) => { cx.violation(&format!("{}:js:refused", tag), format!("{}: {}", brief(m), e)); None }
        Ok(Ok((ct, key))) => {
            let Some((rc, rk)) = reference(m, publics, &s) else { cx.violation(&format!("{}:js:reference", tag), format!("{} publics {:?}", brief(m), publics)); return None };
            cx.check(rc == ct, &format!("{}:js:circuit", tag), || format!("{} publics {:?}: the ciphertext is not the one of this circuit", brief(m), publics));
            cx.check(rk == key, &format!("{}:js:key", tag), || format!("{} publics {:?}", brief(m), publics));
            Some((ct, key))
        }
    }
}
fn cli_matches(cx: &mut Ctx, m: &R1cs, path: &str, publics: &[Fr], tag: &str) {
    let r = mc::guarded(|| -> Result<_, String> {
        let mut c = CircomCircuit::from_r1cs(path).map_err(|e| format!("{:#}", e))?;
        c.set_wire(0, Fr::one()); for (i, p) in publics.iter().enumerate() { c.set_wire(i as u32 + 1, *p); }
        let (n, k) = (c.n_public_inputs() as usize, c.n_constraints() as usize); if n != n_pub(m) || k != m.constraints.len() { return Err(format!("{} public inputs, {} constraints", n, k)); }
        secrets(); let mut rng = ark_std::rand::rngs::OsRng; let (ct, key) = zkenc_core::encap::<Bn254, _, _>(c, &mut rng).map_err(|e| format!("{:?}", e))?;
        let mut b = vec![]; ark_serialize::CanonicalSerialize::serialize_compressed(&ct, &mut b).map_err(|_| "serialize".to_string())?; Ok((b, key.as_bytes().to_vec()))
    });
    let s = secrets(); cx.op(); cx.traced();
    match r { Err(e) => cx.violation(&format!("{}:cli:panic", tag), format!("{:?}: {}", m, e)), Ok(Err(e)) => cx.violation(&format!("{}:cli:refused", tag), format!("{:?}: {}", m, e)),
        Ok(Ok(x)) => { cx.check(reference(m, publics, &s) == Some(x), &format!("{}:cli:circuit", tag), || format!("{:?} publics {:?}: the ciphertext is not the one of this circuit", m, publics)); } }
}
fn distinct_net(fs: usize, n_out: u32, n_in: u32, counts: &[[usize; 3]]) -> R1cs {
    let mut m = net(n_out, n_in, 0, vec![]); m.field_size = fs as u32; m.prime = { let mut p = bn254_prime_le(); p.resize(fs, 0); p }; let n = m.n_wires as u64; let mut k = 0u64;
    let mut co = |s: u64| { let mut c = coef(fs.min(31), s + 1); c.resize(fs, 0); c };
    m.constraints = counts.iter().map(|c| std::array::from_fn(|j| (0..c[j]).map(|_| { k += 1; ((k * 3 % n) as u32, co(k)) }).collect())).collect(); m
}
pub fn c06() {
    let shapes: Vec<Vec<[usize; 3]>> = vec![vec![[1, 1, 1]], vec![[0, 0, 0]], vec![[2, 1, 0], [0, 3, 1]], vec![[1, 0, 2], [1, 1, 1], [3, 2, 1]], vec![], vec![[7, 1, 1]], vec![[1, 20, 1]], vec![[1, 1, 300]]];
    explore("js-layout", "the bindings' reader on every order of the sections, 0..2 unknown sections at every place, field sizes 1..40, 8 constraint shapes, with and without labels: the ciphertext equals the core's on the model; up to 1 (thorough 2) deviations", tier(1, 2), |cx| {
        let fs = *cx.dev_pick(&[32usize, 8, 1, 4, 31, 33, 40]); let sh = cx.pick(&shapes).clone(); let (o, i) = *cx.pick(&[(0u32, 1u32), (1, 1), (1, 0), (2, 2), (0, 0)]);
        let mut m = distinct_net(fs, o, i, &sh); if cx.dev(2) == 1 { m.labels = None; }
        let s = m.sections(); let p = cx.permutation(s.len()); let mut secs: Vec<(u32, Vec<u8>)> = p.iter().map(|i| s[*i].clone()).collect();
        for _ in 0..2 { match cx.dev(4) { 0 => {} k => { let at = cx.choose(secs.len() + 1); let body = match k { 1 => vec![], 2 => vec![1, 0, 0, 0, 5, 6, 7], _ => container(b"r1cs", 1, &net(1, 1, 1, vec![]).sections()) }; secs.insert(at, (*cx.pick(&[4u32, 0, 7, 0x101, 0xffff_ffff]), body)); } } }
        let b = container(b"r1cs", 1, &secs); cx.state(&b);
        cx.sample(|| format!("field size {}, {} outputs, {} inputs, shape {:?}, sections {:?}", fs, o, i, sh, secs.iter().map(|s| (s.0, s.1.len())).collect::<Vec<_>>()));
        let pv: Vec<Fr> = (0..o + i).map(|k| Fr::from(1000 + k as u64)).collect();
        js_matches(cx, &m, &b, &pv, "layout");
    });
    explore("js-size", "the bindings' reader on long files: up to 600 constraints, terms and wires; 65535 to 70000 terms and constraints; 200 to 1000 sections", 0, |cx| {
        let n = *cx.pick(&[1usize, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 300, 600, 65_535, 65_536, 65_537, 70_000]);
        let kind = cx.choose(3); if n > 60_000 {
            // few of the terms and constraints count, and they stand at the end
            let m = match kind { 0 => R1cs { constraints: (0..n).map(|k| if k + 2 < n { [lc(&[]), lc(&[]), lc(&[])] } else { [lc(&[(1, num(1))]), lc(&[(2, num(1))]), lc(&[(3, num(k as u64))])] }).collect(), ..distinct_net(32, 1, 2, &[]) },
                1 => { let mut m = distinct_net(32, 1, 2, &[[1, 1, 1]]); let long: Lc = (0..n).map(|k| (k as u32 % 4, num(k as u64))).collect(); m.constraints[0][cx.choose(3)] = long; m }
                _ => { if n > 65_537 { return; } let m = distinct_net(32, 1, 2, &[[1, 2, 1]]); let mut s = m.sections(); let at = cx.choose(2); for k in 0..[200usize, 253, 254, 256, 300, 1000][cx.choose(6)] { s.insert(if at == 0 { 0 } else { s.len() }, (100 + k as u32, vec![k as u8; k % 3])); } let b = container(b"r1cs", 1, &s); cx.state(&b); js_matches(cx, &m, &b, &[Fr::from(7u64), Fr::from(8u64), Fr::from(9u64)], "sections"); return; } };
            let pv: Vec<Fr> = (0..n_pub(&m)).map(|k| Fr::from(7 + k as u64)).collect(); let b = m.bytes(); cx.state(&b); js_matches(cx, &m, &b, &pv, "layout"); return; }
        let m = match kind { 0 => distinct_net(32, 1, 2, &vec![[1, 2, 1]; n]), 1 => distinct_net(32, 1, 2, &[[n, 1, n]]), _ => distinct_net(32, n as u32 / 2, n as u32 - n as u32 / 2, &[[2, n, 1]]) };
        let pv: Vec<Fr> = (0..n_pub(&m)).map(|k| Fr::from(7 + k as u64)).collect(); let b = m.bytes(); cx.state(&b);
        js_matches(cx, &m, &b, &pv, "layout");
    });
}
/// One-row linear combinations over n wires, coefficients of every kind.
fn lcs(n: u32, deep: bool) -> Vec<Lc> {
    let l = n - 1; let full = vec![0xffu8; 32]; let p = bn254_prime_le(); let mut p1 = p.clone(); p1[0] += 1;
    let mut v = vec![lc(&[(l, num(1))]), lc(&[(1.min(l), num(1))]), lc(&[(0, num(1))]), lc(&[]), lc(&[(1.min(l), neg(1)), (l, num(2))])];
    if deep { v.extend([lc(&[(l, full)]), lc(&[(1.min(l), p), (0, num(3))]), lc(&[(1.min(l), p1)]), lc(&[(1.min(l), num(1)), (1.min(l), num(1))]), lc(&[(0, neg(2)), (l, num(1)), (0, num(1))]), lc(&[(l, coef(32, 77))])]); }
    v
}
const LAYOUTS: [(u32, u32, u32); 8] = [(0, 1, 1), (1, 0, 1), (1, 1, 1), (0, 0, 2), (0, 1, 0), (2, 1, 0), (0, 2, 1), (1, 0, 2)];
fn rows(cx: &mut Ctx, n: u32) -> Vec<[Lc; 3]> {
    let d = lcs(n, true); let s = lcs(n, false);
    match cx.choose(4) {
        0 => vec![],
        1 => { let k = cx.choose(3); let mut r = [cx.pick(&s[..3]).clone(), cx.pick(&s[..3]).clone(), cx.pick(&s).clone()]; r[k] = cx.pick(&d).clone(); vec![r] }
        2 => vec![[cx.pick(&s).clone(), cx.pick(&s).clone(), cx.pick(&s).clone()]],
        _ => vec![[s[0].clone(), s[2].clone(), cx.pick(&s).clone()], [cx.pick(&s).clone(), s[1].clone(), cx.pick(&s[..3]).clone()]],
    }
}
pub fn c10() {
    let vals = [Fr::zero(), Fr::one(), Fr::from(2u64), -Fr::one()];
    explore("adapters-satisfaction", "8 public/private layouts, all one-row circuits over the coefficient alphabet and two-row circuits, all assignments over {0,1,2,-1}: satisfaction, public and private assignment of the command line adapter, and the bindings' verdict, equal direct evaluation", 0, |cx| {
        let (o, i, p) = LAYOUTS[cx.choose(tier(6, 8))]; let mut m = net(o, i, p, vec![]); m.constraints = rows(cx, m.n_wires);
        let b = m.bytes(); let path = crate::file("m.r1cs", &b); cx.state(&b);
        cx.sample(|| format!("{} outputs, {} inputs, {} private, rows {:?}", o, i, p, m.constraints));
        let n = m.n_wires as usize; let np = n_pub(&m);
        let total = vals.len().pow(n as u32 - 1);
        for k in 0..total {
            let mut a = vec![Fr::one()]; let mut q = k; for _ in 1..n { a.push(vals[q % vals.len()]); q /= vals.len(); }
            let want = sat(&m, &a);
            let r = mc::guarded(|| -> Result<_, String> {
                let mut c = CircomCircuit::from_r1cs(&path).map_err(|e| format!("{:#}", e))?; c.set_witness(a.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect());
                let cs = ConstraintSystem::new_ref(); c.generate_constraints(cs.clone()).map_err(|e| format!("{:?}", e))?;
                let sat = cs.is_satisfied().map_err(|e| format!("{:?}", e))?; let b = cs.borrow().unwrap();
                Ok((sat, b.instance_assignment().map_err(|e| format!("{:?}", e))?.to_vec(), b.witness_assignment().map_err(|e| format!("{:?}", e))?.to_vec(), b.num_constraints()))
            });
            cx.op(); cx.traced();
            match r { Err(e) => return cx.violation("adapter:cli:panic", format!("{:?}: {}", m, e)), Ok(Err(e)) => return cx.violation("adapter:cli:refused", format!("{:?}: {}", m, e)),
                Ok(Ok((s, ins, wit, nc))) => {
                    if s != want { return cx.violation("adapter:cli:satisfaction", format!("{:?} with {:?}: {} instead of {}", m.constraints, a, s, want)); }
                    if ins != a[..=np] || wit != a[np + 1..] { return cx.violation("adapter:cli:assignment", format!("{:?} with {:?}: {:?} / {:?}", m.constraints, a, ins, wit)); }
                    if nc != m.constraints.len() { return cx.violation("adapter:cli:count", format!("{} constraints of {}", nc, m.constraints.len())); } } }
        }
        cx.outcome("evaluated");
    });
    explore("bindings-satisfaction", "the same circuits and assignments through the bindings: a key comes out exactly for satisfying assignments", 0, |cx| {
        let (o, i, p) = LAYOUTS[cx.choose(tier(4, 8))]; let mut m = net(o, i, p, vec![]); m.constraints = rows(cx, m.n_wires);
        let b = m.bytes(); cx.state(&b); let n = m.n_wires as usize; let np = n_pub(&m);
        let total = vals.len().pow(n as u32 - 1); let mut cts: std::collections::HashMap<Vec<Vec<u8>>, (Vec<u8>, Vec<u8>)> = Default::default();
        for k in 0..total {
            let mut a = vec![Fr::one()]; let mut q = k; for _ in 1..n { a.push(vals[q % vals.len()]); q /= vals.len(); }
            let key: Vec<Vec<u8>> = a[1..=np].iter().map(le).collect();
            if !cts.contains_key(&key) { match js_encap(&b, &wtns(&a[..=np])) { Ok(Ok(x)) => { cts.insert(key.clone(), x); } e => return cx.violation("adapter:js:encap", format!("{:?}: {:?}", m, e)) } }
            let (ct, kk) = &cts[&key]; let want = sat(&m, &a); let r = js_decap(&b, &wtns(&a), ct); cx.op(); cx.traced();
            match r { Err(e) => return cx.violation("adapter:js:panic", format!("{:?}: {}", m, e)),
                Ok(Ok(g)) => { if !want { return cx.violation("adapter:js:satisfaction", format!("{:?} accepts {:?}", m.constraints, a)); } if &g != kk && !complete(&m) { return cx.violation("adapter:js:key", format!("{:?} with {:?}", m.constraints, a)); } cx.outcome("key"); }
                Ok(Err(e)) => { if want { return cx.violation("adapter:js:satisfaction", format!("{:?} refuses {:?}: {}", m.constraints, a, e)); } cx.outcome("refused"); } }
        }
    });
    explore("long-circuits", "chains of up to 300 (thorough 1100) rows with up to 33 public wires, through files: bindings and command line adapter see each row violated alone, each changed public value, and the satisfying assignment", 0, |cx| {
        let sizes = tier(vec![1usize, 2, 7, 8, 9, 31, 32, 33, 64, 65, 127, 128, 129, 300], vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1100]);
        let n = *cx.pick(&sizes); let p = *cx.pick(&[0usize, 1, 5, 17, 33]); let o = cx.choose(if p == 5 { 6 } else { 1 }); let c = crate::core::chain::<Fr>(n, p);
        let cs = c.rows.iter().map(|r| std::array::from_fn(|k| r[k].iter().map(|(q, i)| (*i as u32, le(q))).collect())).collect(); let m = net(o as u32, (p - o) as u32, n as u32 + 1, cs); let b = m.bytes(); cx.state(&(n, p, o)); cx.sample(|| format!("{} rows, {} public", n, p));
        let publics: Vec<Fr> = (0..p).map(|i| Fr::from(i as u64 + 2)).collect(); let good = crate::core::chain_values(n, p, &publics, 3, None);
        let (ct, key) = match js_encap(&b, &wtns(&good[..=p])) { Ok(Ok(x)) => x, e => return cx.violation("adapter:js:encap", format!("{} rows, {} public: {:?}", n, p, e)) }; let path = crate::file("m.r1cs", &b);
        let step = if n > 130 { 37 } else { 1 }; let mut tries = vec![(good.clone(), true, "good".to_string())]; for j in (0..n).filter(|j| j % step == 0 || j + 2 > n) { tries.push((crate::core::chain_values(n, p, &publics, 3, Some(j)), false, format!("row {} violated", j))); }
        for (a, want, what) in tries {
            let j = js_decap(&b, &wtns(&a), &ct); cx.op(); cx.traced();
            match j { Err(e) => return cx.violation("adapter:js:panic", format!("{} rows, {} public, {}: {}", n, p, what, e)), Ok(Ok(k)) => { if !want { return cx.violation("adapter:js:satisfaction", format!("{} rows, {} public: accepted although {}", n, p, what)); } if k != key { return cx.violation("adapter:js:key", format!("{} rows, {} public", n, p)); } } Ok(Err(e)) => if want { return cx.violation("adapter:js:satisfaction", format!("{} rows, {} public: refused: {}", n, p, e)); } }
            let r = mc::guarded(|| -> Result<_, String> { let mut c = CircomCircuit::from_r1cs(&path).map_err(|e| format!("{:#}", e))?; c.set_witness(a.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect()); let cs = ConstraintSystem::new_ref(); c.generate_constraints(cs.clone()).map_err(|e| format!("{:?}", e))?; let sat = cs.is_satisfied().map_err(|e| format!("{:?}", e))?; let b = cs.borrow().unwrap(); Ok((sat, b.instance_assignment().map_err(|e| format!("{:?}", e))?.to_vec(), b.num_constraints())) });
            cx.op(); cx.traced();
            match r { Err(e) => return cx.violation("adapter:cli:panic", e), Ok(Err(e)) => return cx.violation("adapter:cli:refused", format!("{} rows, {} public: {}", n, p, e)), Ok(Ok((s, ins, nc))) => { if s != want { return cx.violation("adapter:cli:satisfaction", format!("{} rows, {} public, {}: {}", n, p, what, s)); } if ins != a[..=p] { return cx.violation("adapter:cli:assignment", format!("{} rows, {} public: {:?}", n, p, ins)); } if nc != n { return cx.violation("adapter:cli:count", format!("{} of {}", nc, n)); } } }
        }
        cx.outcome("evaluated");
    });
    explore("adapters-matrices", "circuits without private wires, two-row alphabet: both adapters give the core exactly the model's matrices (the published query elements coincide)", 0, |cx| {
        let (o, i) = *cx.pick(&[(0u32, 1u32), (1, 1), (2, 1), (0, 0)]); let mut m = net(o, i, 0, vec![]); m.constraints = rows(cx, m.n_wires);
        let b = m.bytes(); cx.state(&b); let path = crate::file("m.r1cs", &b); let pv: Vec<Fr> = (0..o + i).map(|k| Fr::from(11 + k as u64)).collect();
        js_matches(cx, &m, &b, &pv, "matrices"); cli_matches(cx, &m, &path, &pv, "matrices"); cx.outcome("compared");
    });
}
/// A circuit that only this assignment satisfies: 1 * x_i = c_i.
fn pin(a: &[Fr], np: u32) -> R1cs { net(0, np, a.len() as u32 - 1 - np, (1..a.len()).map(|i| [lc(&[(0, num(1))]), lc(&[(i as u32, num(1))]), lc(&[(0, le(&a[i]))])]).collect()) }
pub fn c09() {
    let p = bn254_prime_le(); let pm1 = -Fr::one();
    let vals: Vec<Fr> = vec![Fr::zero(), Fr::one(), pm1, Fr::from(u64::MAX), fr(&coef(31, 5)), fr(&[0, 0, 0, 0, 0, 0, 0, 0, 1]), fr(&[vec![0; 24], vec![1]].concat()), Fr::from(255u64), Fr::from(256u64)];
    explore("wtns-layout", "assignments of 1..4 values over boundary field elements, every section order, 0..1 (thorough: 0..2) unknown sections at every place: both readers give wire i the i-th value", tier(2, 3), |cx| {
        let n = 1 + cx.choose(4); let mut a = vec![Fr::one()]; for k in 1..n { let j = if n <= 3 { cx.choose(vals.len()) } else { cx.dev(vals.len()) }; a.push(vals[(j + if n > 3 { k } else { 0 }) % vals.len()]); }
        let w = Wtns { n8: 32, prime: p.clone(), values: a.iter().map(le).collect() }; let s = w.sections(); let pm = cx.permutation(2); let mut secs: Vec<_> = pm.iter().map(|i| s[*i].clone()).collect();
        for _ in 0..tier(1, 2) { match cx.dev(4) { 0 => {} k => { let at = cx.choose(secs.len() + 1); let body = match k { 1 => vec![], 2 => vec![32, 0, 0, 0, 9], _ => w.bytes() }; secs.insert(at, (*cx.pick(&[3u32, 0, 7, 0x102]), body)); } } }
        let b = container(b"wtns", 2, &secs); cx.state(&b); let path = crate::file("w.wtns", &b);
        cx.sample(|| format!("values {:?}, sections {:?}", a, secs.iter().map(|s| (s.0, s.1.len())).collect::<Vec<_>>()));
        let r = mc::alloc::watched(|| mc::guarded(|| -> Result<_, String> { let f = zkenc_cli::witness::WitnessFile::from_file(&path).map_err(|e| format!("{:#}", e))?; let m = f.to_field_elements::<Fr>().map_err(|e| format!("{:#}", e))?; Ok((f.prime.clone(), f.n_witness, f.n_wires(), f.assignments.clone(), m)) }));
        cx.op(); cx.traced();
        match r { Err(e) => cx.violation("wtns:cli:panic", format!("{:?}: {}", a, e)), Ok(Err(e)) => cx.violation("wtns:cli:refused", format!("{:?} {:?}: {}", a, secs.iter().map(|s| s.0).collect::<Vec<_>>(), e)),
            Ok(Ok((pr, k, k2, raw, m))) => { cx.check(pr == p && k as usize == n && k2 as usize == n && raw.len() == n && (0..n).all(|i| raw.get(&(i as u32)) == Some(&le(&a[i]))) && m.len() == n && (0..n).all(|i| m.get(&(i as u32)) == Some(&a[i])), "wtns:cli:values", || format!("{:?} read as {:?}", a, m)); cx.outcome("cli read"); } }
        if n == 1 { return; }
        // the bindings: only the right assignment opens the pinning circuit, any neighbour does not
        let np = cx.choose(2.min(n - 1)) as u32; let m = pin(&a, np); let mb = m.bytes();
        let Ok(Ok((ct, key))) = js_encap(&mb, &wtns(&a[..=np as usize])) else { return cx.violation("wtns:js:encap", format!("{:?}", a)) };
        match js_decap(&mb, &b, &ct) { Ok(Ok(k)) => { cx.check(k == key || complete(&m), "wtns:js:key", || format!("{:?}", a)); } Ok(Err(e)) => cx.violation("wtns:js:values", format!("{:?} in sections {:?} not read as such: {}", a, secs.iter().map(|s| s.0).collect::<Vec<_>>(), e)), Err(e) => cx.violation("wtns:js:panic", format!("{:?} {:?}: {}", a, secs.iter().map(|s| s.0).collect::<Vec<_>>(), e)) }
        for i in 1..n { let mut o = a.clone(); o[i] += Fr::one(); let mo = pin(&o, np);
            let Ok(Ok((ct, _))) = js_encap(&mo.bytes(), &wtns(&o[..=np as usize])) else { return cx.violation("wtns:js:encap", format!("{:?}", o)) };
            if let Ok(Ok(_)) = js_decap(&mo.bytes(), &b, &ct) { cx.violation("wtns:js:values", format!("{:?} also read as {:?}", a, o)); } }
        cx.op(); cx.traced(); cx.outcome("js read");
        // public values given for encapsulation arrive at their wires
        secrets(); if let Ok(Ok((ct, _))) = js_encap(&net(0, n as u32 - 1, 0, vec![[lc(&[(1, num(1))]), lc(&[(0, num(1))]), lc(&[(1, num(1))])]]).bytes(), &b) { cx.check(recorded(&ct).map_or(false, |r| r == a[1..]), "wtns:js:publics", || format!("{:?} recorded {:?}", a, recorded(&ct))); } else { cx.violation("wtns:js:encap", format!("{:?}", a)); }
    });
    explore("wtns-size", "1..70000 values", 0, |cx| {
        let n = *cx.pick(&[1usize, 2, 3, 4, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 4096, 65_535, 65_536, 70_000]);
        let a: Vec<Fr> = (0..n).map(|i| if i == 0 { Fr::one() } else { fr(&coef(31, i as u64)) }).collect(); let b = wtns(&a); cx.state(&n); let path = crate::file("w.wtns", &b);
        let r = mc::guarded(|| -> Result<_, String> { zkenc_cli::witness::WitnessFile::from_file(&path).and_then(|f| f.to_field_elements::<Fr>()).map_err(|e| format!("{:#}", e)) }); cx.op(); cx.traced();
        match r { Ok(Ok(m)) => { cx.check(m.len() == n && (0..n).all(|i| m.get(&(i as u32)) == Some(&a[i])), "wtns:cli:values", || format!("{} values", n)); } e => cx.violation("wtns:cli:refused", format!("{} values: {:?}", n, e.map(|x| x.map(|m| m.len())))) }
        if n > 1 { let np = (n as u32 - 1).min(3);
            // enough rows to see every position, sampled at the ends for the long ones
            let idx: Vec<usize> = (1..n).filter(|i| n < 5000 || *i < 40 || *i + 40 > n || i % 997 == 0).collect();
            let m = net(0, np, n as u32 - 1 - np, idx.iter().map(|i| [lc(&[(0, num(1))]), lc(&[(*i as u32, num(1))]), lc(&[(0, le(&a[*i]))])]).collect()); let mb = m.bytes();
            match js_encap(&mb, &wtns(&a[..=np as usize])) { Ok(Ok((ct, _))) => match js_decap(&mb, &b, &ct) { Ok(Ok(_)) => cx.outcome("js read"), e => cx.violation("wtns:js:values", format!("{} values: {:?}", n, e)) }, e => cx.violation("wtns:js:encap", format!("{:?}", e)) } cx.op(); cx.traced(); }
    });
}
/// (offset, width, name) of every integer field of a witness file.
fn wfields(secs: &[(u32, Vec<u8>)]) -> Vec<(usize, usize, &'static str)> {
    let mut v = vec![(4, 4, "version"), (8, 4, "section count")]; let mut p = 12;
    for (t, b) in secs { v.push((p, 4, "section type")); v.push((p + 4, 8, "section size")); let s = p + 12; if *t == 1 { v.push((s, 4, "field size")); v.push((s + b.len() - 4, 4, "value count")); } p = s + b.len(); }
    v
}
fn boundary(w: usize, orig: u64, len: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 255, 256, 65_536, 1 << 20, 1 << 26, 0x0fff_ffff, 0x3fff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 0xffff_fffe, 0xffff_ffff, orig.wrapping_add(1), orig.wrapping_sub(1), orig.wrapping_mul(2), len as u64, len as u64 - 1, len as u64 + 1];
    if w == 8 { v.extend([1 << 32, (1 << 32) + orig, 1 << 40, (1 << 62) - 1, i64::MAX as u64, 1 << 63, (1 << 63) + orig, u64::MAX, u64::MAX - 1, u64::MAX - 11, u64::MAX - 12, u64::MAX - len as u64, 0u64.wrapping_sub(orig), 0u64.wrapping_sub(orig + 12)]); for k in 1..=tier(48, 300) { v.push(0u64.wrapping_sub(k)); } }
    let m = if w == 8 { u64::MAX } else { u32::MAX as u64 }; v.iter_mut().for_each(|x| *x &= m); v.sort(); v.dedup(); v
}
fn judge_wtns(cx: &mut Ctx, bytes: &[u8], a: &[Fr], what: &str) {
    cx.state(bytes); cx.traced();
    let v = read_wtns(bytes);
    // command line
    let path = crate::file("d.wtns", bytes);
    let (r, mem) = peak(|| mc::guarded(|| -> Result<_, String> { let f = zkenc_cli::witness::WitnessFile::from_file(&path).map_err(|e| format!("{:#}", e))?; let m = f.to_field_elements::<Fr>().map_err(|e| format!("{:#}", e)); Ok((f, m)) })); cx.op();
    if mem > allowed(bytes.len()) { cx.violation("wtns-cli:memory", format!("{}: {} bytes for a file of {}", what, mem, bytes.len())); }
    match (r, &v) {
        (Err(e), _) => cx.violation("wtns-cli:panic", format!("{}: {}", what, e)),
        (Ok(Err(_)), _) => cx.outcome("cli refused"),
        (Ok(Ok((f, _))), Verdict::Valid(w)) => { cx.check(f.prime == w.prime && f.n_witness as usize == w.values.len() && f.assignments.len() == w.values.len() && w.values.iter().enumerate().all(|(i, x)| f.assignments.get(&(i as u32)) == Some(x)), "wtns-cli:wrong-data", || what.to_string()); cx.outcome("cli read"); }
        (Ok(Ok(_)), Verdict::Invalid(why)) => cx.violation(&format!("wtns-cli:accepted:{}", why), format!("{}: accepted although {}", what, why)),
        (Ok(Ok(_)), Verdict::Open(_)) => cx.outcome("open"),
    }
    // bindings
    let m = pin(a, 1); let mb = m.bytes(); let Ok(Ok((ct, key))) = js_encap(&mb, &wtns(&a[..2])) else { return cx.violation("wtns-js:encap", what.into()) };
    let (r, mem) = peak(|| js_decap(&mb, bytes, &ct)); cx.op();
    if mem > allowed(bytes.len() + mb.len()) { cx.violation("wtns-js:memory", format!("{}: {} bytes for a file of {}", what, mem, bytes.len())); }
    match (r, &v) {
        (Err(e), _) => cx.violation("wtns-js:panic", format!("{}: {}", what, e)),
        (Ok(Err(_)), _) => cx.outcome("js refused"),
        (Ok(Ok(k)), Verdict::Valid(w)) => { let same = w.n8 == 32 && w.values.len() == a.len() && w.values.iter().zip(a).skip(1).all(|(x, y)| fr(x) == *y); cx.check((same || w.n8 != 32) && k == key, "wtns-js:wrong-data", || what.to_string()); cx.outcome("js read"); }
        (Ok(Ok(_)), Verdict::Invalid(why)) => cx.violation(&format!("wtns-js:accepted:{}", why), format!("{}: accepted although {}", what, why)),
        (Ok(Ok(_)), Verdict::Open(_)) => cx.outcome("open"),
    }
}
fn judge_r1cs_js(cx: &mut Ctx, bytes: &[u8], what: &str) {
    cx.state(bytes); cx.traced();
    let w = wtns(&(0..12).map(|i| Fr::from(i as u64 + 1)).collect::<Vec<_>>()); let v = read_r1cs(bytes, false);
    let (r, mem) = peak(|| js_encap(bytes, &w)); cx.op();
    if mem > allowed(bytes.len() + w.len()) { cx.violation("r1cs-js:memory", format!("{}: {} bytes for a file of {}", what, mem, bytes.len())); }
    match (r, &v) {
        (Err(e), _) => cx.violation("r1cs-js:panic", format!("{}: {}", what, e)),
        (Ok(Err(_)), _) => cx.outcome("refused"),
        (Ok(Ok((ct, _))), Verdict::Valid(m)) => { cx.check(recorded(&ct).map_or(false, |p| p.len() == n_pub(m)), "r1cs-js:wrong-data", || format!("{}: {:?} public inputs of {}", what, recorded(&ct).map(|p| p.len()), n_pub(m))); cx.outcome("read"); }
        (Ok(Ok(_)), Verdict::Invalid(why)) => cx.violation(&format!("r1cs-js:accepted:{}", why), format!("{}: accepted although {}", what, why)),
        (Ok(Ok(_)), Verdict::Open(_)) => cx.outcome("open"),
    }
}
pub fn c07() {
    let a = vec![Fr::one(), Fr::from(5u64), fr(&coef(31, 3)), Fr::from(9u64)];
    let w = Wtns { n8: 32, prime: bn254_prime_le(), values: a.iter().map(le).collect() };
    let mut rev = w.sections(); rev.reverse(); let mut unk = w.sections(); unk.insert(1, (9, vec![7; 6])); unk.push((3, vec![]));
    let bases = vec![("plain", w.sections()), ("values first", rev), ("unknown sections", unk)];
    explore("wtns-truncate", "every prefix of three witness files, and every prefix extended by zeros to full length", 0, |cx| {
        let (n, s) = cx.pick(&bases); let b = container(b"wtns", 2, s); let k = cx.choose(b.len()); let mut c = b[..k].to_vec(); if cx.flag() { c.resize(b.len(), 0); }
        judge_wtns(cx, &c, &a, &format!("{} cut to {} of {} bytes", n, k, b.len()));
    });
    explore("wtns-byte", "every byte of a witness file changed (header bytes: to every value)", 0, |cx| {
        let (n, s) = cx.pick(&bases); let mut b = container(b"wtns", 2, s); let i = cx.choose(b.len()); let x = if i < 100 || mc::thorough() { cx.choose(255) as u8 + 1 } else { *cx.pick(&[1u8, 0x80, 0xff]) }; b[i] ^= x;
        judge_wtns(cx, &b, &a, &format!("{}: byte {} ^ {:#x}", n, i, x));
    });
    explore("wtns-field", "every integer field of three witness files at every boundary value, and every pair of such faults", 0, |cx| {
        let (n, s) = cx.pick(&bases); let mut b = container(b"wtns", 2, s); let fs = wfields(s); let mut what = n.to_string(); let mut from = 0;
        for r in 0..2 { if r == 1 && (from >= fs.len() || !cx.flag()) { break; } let i = from + cx.choose(fs.len() - from); from = i + 1; let (o, w, name) = fs[i]; let mut x = [0u8; 8]; x[..w].copy_from_slice(&b[o..o + w]); let orig = u64::from_le_bytes(x);
            let vs = if r == 0 { boundary(w, orig, b.len()) } else { let mut v = vec![0, 1, 2, orig.wrapping_add(1), 0xffff_ffff, 0x8000_0000]; if w == 8 { v.extend([u64::MAX, 1 << 63, 0u64.wrapping_sub(20)]); } v };
            let v = *cx.pick(&vs); b[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]); what.push_str(&format!(", {} at {} := {}", name, o, v)); }
        judge_wtns(cx, &b, &a, &what);
    });
    explore("wtns-sections", "every subset and repetition of the sections", 0, |cx| {
        let (n, s) = cx.pick(&bases); let mut v = vec![]; for x in s { for _ in 0..cx.choose(3) { v.push(x.clone()); } } let mut b = container(b"wtns", 2, &v); match cx.choose(3) { 0 => {} 1 => b.extend([0; 5]), _ => b[0] = b'r' }
        judge_wtns(cx, &b, &a, &format!("{} sections {:?}", n, v.iter().map(|x| x.0).collect::<Vec<_>>()));
    });
    let rb: Vec<(&str, Vec<(u32, Vec<u8>)>)> = { let m = net(1, 1, 1, vec![[lc(&[(3, num(1))]), lc(&[(1, num(2)), (0, num(1))]), lc(&[])]]); let mut r = m.sections(); r.reverse(); let mut u = net(0, 2, 0, vec![[lc(&[(1, num(1))]), lc(&[(2, num(1))]), lc(&[(1, num(4))])]]).sections(); u.insert(0, (9, vec![1; 7])); vec![("private wire", m.sections()), ("reversed", r), ("all public", u), ("no constraints", net(0, 1, 1, vec![]).sections())] };
    explore("r1cs-js-truncate", "every prefix of four circuit files through the bindings", 0, |cx| { let (n, s) = cx.pick(&rb); let b = container(b"r1cs", 1, s); let k = cx.choose(b.len()); judge_r1cs_js(cx, &b[..k], &format!("{} cut to {} of {}", n, k, b.len())); });
    explore("r1cs-js-byte", "every byte of four circuit files changed", 0, |cx| {
        let (n, s) = cx.pick(&rb); let mut b = container(b"r1cs", 1, s); let i = cx.choose(b.len()); let x = if mc::thorough() { cx.choose(255) as u8 + 1 } else { *cx.pick(&[1u8, 2, 3, 4, 8, 16, 32, 64, 128, 255, 0x7f]) }; b[i] ^= x; judge_r1cs_js(cx, &b, &format!("{}: byte {} ^ {:#x}", n, i, x)); });
    explore("r1cs-js-field", "every integer field of four circuit files at every boundary value, and pairs", 0, |cx| {
        let (n, s) = cx.pick(&rb); let mut b = container(b"r1cs", 1, s); let fs = rfields(s); let mut what = n.to_string(); let mut from = 0;
        for r in 0..2 { if r == 1 && (from >= fs.len() || !cx.flag()) { break; } let i = from + cx.choose(fs.len() - from); from = i + 1; let (o, w, name) = fs[i]; let mut x = [0u8; 8]; x[..w].copy_from_slice(&b[o..o + w]); let orig = u64::from_le_bytes(x);
            let vs = if r == 0 { boundary(w, orig, b.len()) } else { let mut v = vec![0, 1, orig.wrapping_add(1), 0xffff_ffff, 0x8000_0000]; if w == 8 { v.extend([u64::MAX, 1 << 63]); } v };
            let v = *cx.pick(&vs); b[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]); what.push_str(&format!(", {} at {} := {}", name, o, v)); }
        judge_r1cs_js(cx, &b, &what);
    });
    explore("r1cs-js-sections", "every subset and repetition of the sections", 0, |cx| {
        let (n, s) = cx.pick(&rb); let mut v = vec![]; for x in s { for _ in 0..cx.choose(3) { v.push(x.clone()); } } let mut b = container(b"r1cs", 1, &v); match cx.choose(3) { 0 => {} 1 => b.extend([0; 5]), _ => b[0] = b'w' }
        judge_r1cs_js(cx, &b, &format!("{} sections {:?}", n, v.iter().map(|x| x.0).collect::<Vec<_>>()));
    });
    // ciphertexts
    let m = pin(&a, 1); let mb = m.bytes(); let (ct, key) = js_encap(&mb, &wtns(&a[..2])).ok().and_then(|r| r.ok()).unwrap_or_default(); let wb = wtns(&a);
    explore("ciphertext", "every prefix of a ciphertext, every byte set to 6 values, through the bindings: an error or the key, never another outcome for a cut one", 0, |cx| {
        if ct.is_empty() { return cx.violation("ciphertext:encap", "no ciphertext".into()); }
        let mut b = ct.clone(); let i = cx.choose(b.len()); let k = cx.choose(7); if k == 0 { b.truncate(i) } else { b[i] = [0, 1, 0x7f, 0x80, 0xff, b[i] ^ 1][k - 1]; }
        if b == ct { return; } cx.state(&b); cx.traced();
        let (r, mem) = peak(|| js_decap(&mb, &wb, &b)); cx.op();
        if mem > allowed(b.len() + mb.len() + wb.len()) { cx.violation("ciphertext:memory", format!("byte {} variant {}: {} bytes", i, k, mem)); }
        match r { Err(e) => cx.violation("ciphertext:panic", format!("byte {} variant {}: {}", i, k, e)), Ok(Err(_)) => cx.outcome("refused"), Ok(Ok(g)) => { cx.check(k != 0, "ciphertext:accepted:cut", || format!("cut to {} bytes", i)); let _ = (&g, &key); cx.outcome("read"); } }
    });
}
pub fn rfields(sections: &[(u32, Vec<u8>)]) -> Vec<(usize, usize, &'static str)> {
    let mut v = vec![(4, 4, "version"), (8, 4, "section count")]; let mut p = 12;
    for (t, b) in sections { v.push((p, 4, "section type")); v.push((p + 4, 8, "section size")); let s = p + 12;
        match t { 1 => { v.push((s, 4, "field size")); for (i, n) in ["wires", "public outputs", "public inputs", "private inputs"].iter().enumerate() { v.push((s + 36 + 4 * i, 4, n)); } v.push((s + 52, 8, "labels")); v.push((s + 60, 4, "constraints")); }
            2 => { let mut q = 0; while q < b.len() { v.push((s + q, 4, "factor count")); let n = u32::from_le_bytes(b[q..q + 4].try_into().unwrap()) as usize; q += 4; for _ in 0..n { v.push((s + q, 4, "wire number")); q += 36; } } } _ => {} }
        p = s + b.len(); }
    v
}
pub fn c02() {
    let vals = [Fr::zero(), Fr::one(), -Fr::one()];
    explore("tool-verdicts", "circuits x recorded public inputs x every assignment over {0,1,-1} (one value short, exact, one value extra): bindings and command line give the key exactly when the model says so", 0, |cx| {
        let (o, i, p) = *cx.pick(&[(0u32, 1u32, 1u32), (1, 1, 1), (0, 0, 1), (0, 2, 1)][..tier(3, 4)]); let mut m = net(o, i, p, vec![]); let l = m.n_wires - 1;
        let s = [lc(&[(l, num(1))]), lc(&[(1, num(1))]), lc(&[(0, num(1))]), lc(&[])];
        m.constraints = match cx.choose(3) { 0 => vec![[cx.pick(&s).clone(), cx.pick(&s).clone(), cx.pick(&s).clone()]], 1 => vec![], _ => vec![[s[0].clone(), s[0].clone(), s[1].clone()], [s[1].clone(), s[2].clone(), cx.pick(&s).clone()]] };
        let np = n_pub(&m); let n = m.n_wires as usize; let pv: Vec<Fr> = (0..np).map(|_| *cx.pick(&vals)).collect(); let mut base = vec![Fr::one()]; base.extend(&pv);
        let b = m.bytes(); cx.state(&(&b, pv.iter().map(le).collect::<Vec<_>>())); let d = Dir::new(); let cp = d.put("c.r1cs", &b);
        let (ct, key) = match js_encap(&b, &wtns(&base)) { Ok(Ok(x)) => x, e => return cx.violation("tools:encap", format!("{:?}: {:?}", m, e)) }; let ctp = d.put("ct", &ct);
        cx.sample(|| format!("{} outputs, {} inputs, {} private, rows {:?}, recorded {:?}", o, i, p, m.constraints, pv));
        for len in [n, n - 1, n + 1] {
            let total = vals.len().pow(len as u32 - 1);
            for k in 0..total {
                let mut a = vec![Fr::one()]; let mut q = k; for _ in 1..len { a.push(vals[q % vals.len()]); q /= vals.len(); }
                let want = len == n && a[1..=np] == pv[..] && sat(&m, &a); let w = wtns(&a); let kind = if len < n { "short" } else if len > n { "long" } else if a[1..=np] != pv[..] { "other-publics" } else { "unsatisfied" };
                let j = js_decap(&b, &w, &ct); cx.op(); cx.traced();
                match j { Err(e) => return cx.violation("tools:js:panic", format!("{:?} {:?}: {}", m.constraints, a, e)), Ok(Ok(g)) => { if !want { return cx.violation(&format!("released:js:{}", kind), format!("{:?} recorded {:?} opened by {:?}", m.constraints, pv, a)); } if g != key { return cx.violation("tools:js:key", format!("{:?} {:?}", m.constraints, a)); } } Ok(Err(e)) => if want { return cx.violation("refused:js", format!("{:?} {:?}: {}", m.constraints, a, e)); } }
                let wp = d.put("w", &w); let _ = std::fs::remove_file(d.p("k")); let c = cli_decap(&cp, &wp, &ctp, &d.p("k")); cx.op(); cx.traced(); let got = d.get("k");
                match c { Err(e) => return cx.violation("tools:cli:panic", format!("{:?} {:?}: {}", m.constraints, a, e)), Ok(Ok(())) => { if !want { return cx.violation(&format!("released:cli:{}", kind), format!("{:?} recorded {:?} opened by {:?}", m.constraints, pv, a)); } if got.as_deref() != Some(&key[..]) { return cx.violation("tools:cli:key", format!("{:?} {:?}: {:?}", m.constraints, a, got)); } cx.outcome("released"); }
                    Ok(Err(e)) => { if want { return cx.violation("refused:cli", format!("{:?} {:?}: {}", m.constraints, a, e)); } if got.is_some() { return cx.violation("released:cli:despite-error", format!("{:?} {:?}", m.constraints, a)); } cx.outcome("refused"); } }
            }
        }
    });
}
