//! Exported circuits, witnesses and test cases round-trip, within and across both packages.
use mc::formats::*;
use mc::{explore, tier, Ctx};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Circuit { pub base: R1cs, pub n_constraints: u32, pub labels: Option<BTreeMap<u32, String>> }
pub type Witness = BTreeMap<u32, Vec<u8>>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case { pub circuit: Circuit, pub witness: Witness, pub name: String, pub description: Option<String> }
macro_rules! package { ($m:ident, $p:path) => {
    pub mod $m {
        use super::{Case, Circuit, Witness}; use mc::formats::*; use $p as s;
        fn lc(l: &Lc) -> s::SerializableLC { s::SerializableLC { factors: l.iter().map(|(w, c)| s::SerializableFactor { wire_id: *w, coefficient_bytes: c.clone() }).collect() } }
        fn cl(l: &s::SerializableLC) -> Lc { l.factors.iter().map(|f| (f.wire_id, f.coefficient_bytes.clone())).collect() }
        pub fn circuit(c: &Circuit) -> s::SerializableCircuit {
            let b = &c.base;
            s::SerializableCircuit { field_size: b.field_size, prime_bytes: b.prime.clone(), n_wires: b.n_wires, n_pub_out: b.n_pub_out, n_pub_in: b.n_pub_in, n_prv_in: b.n_prv_in, n_constraints: c.n_constraints,
                constraints: b.constraints.iter().map(|k| s::SerializableConstraint { a: lc(&k[0]), b: lc(&k[1]), c: lc(&k[2]) }).collect(), wire_labels: c.labels.clone().map(|l| l.into_iter().collect()) }
        }
        pub fn back(c: &s::SerializableCircuit) -> Circuit {
            Circuit { base: R1cs { field_size: c.field_size, prime: c.prime_bytes.clone(), n_wires: c.n_wires, n_pub_out: c.n_pub_out, n_pub_in: c.n_pub_in, n_prv_in: c.n_prv_in, n_labels: 0, constraints: c.constraints.iter().map(|k| [cl(&k.a), cl(&k.b), cl(&k.c)]).collect(), labels: None },
                n_constraints: c.n_constraints, labels: c.wire_labels.clone().map(|l| l.into_iter().collect()) }
        }
        fn wit(w: &Witness) -> s::SerializableWitness { s::SerializableWitness { assignments: w.clone().into_iter().collect() } }
        fn tiw(w: &s::SerializableWitness) -> Witness { w.assignments.clone().into_iter().collect() }
        fn case(c: &Case) -> s::SerializableTestCase { s::SerializableTestCase { circuit: circuit(&c.circuit), witness: wit(&c.witness), name: c.name.clone(), description: c.description.clone() } }
        fn esac(c: &s::SerializableTestCase) -> Case { Case { circuit: back(&c.circuit), witness: tiw(&c.witness), name: c.name.clone(), description: c.description.clone() } }
        fn e<T>(r: Result<T, impl std::fmt::Display>) -> Result<T, String> { r.map_err(|e| e.to_string()) }
        pub const API: super::Api = super::Api {
            to_json: |c| e(circuit(c).to_json()), from_json: |j| e(s::SerializableCircuit::from_json(j)).map(|c| back(&c)),
            to_bin: |c| e(circuit(c).to_bincode()), from_bin: |b| e(s::SerializableCircuit::from_bincode(b)).map(|c| back(&c)),
            save_json: |c, p| e(circuit(c).save_json(p)), load_json: |p| e(s::SerializableCircuit::load_json(p)).map(|c| back(&c)),
            save_bin: |c, p| e(circuit(c).save_bincode(p)), load_bin: |p| e(s::SerializableCircuit::load_bincode(p)).map(|c| back(&c)),
            w_to_json: |w| e(wit(w).to_json()), w_from_json: |j| e(s::SerializableWitness::from_json(j)).map(|w| tiw(&w)),
            w_save: |w, p| e(wit(w).save_json(p)), w_load: |p| e(s::SerializableWitness::load_json(p)).map(|w| tiw(&w)),
            t_save: |t, p| e(case(t).save_json(p)), t_load: |p| e(s::SerializableTestCase::load_json(p)).map(|t| esac(&t)),
        };
    }
} }
#[allow(clippy::type_complexity)]
pub struct Api {
    to_json: fn(&Circuit) -> Result<String, String>, from_json: fn(&str) -> Result<Circuit, String>, to_bin: fn(&Circuit) -> Result<Vec<u8>, String>, from_bin: fn(&[u8]) -> Result<Circuit, String>,
    save_json: fn(&Circuit, &str) -> Result<(), String>, load_json: fn(&str) -> Result<Circuit, String>, save_bin: fn(&Circuit, &str) -> Result<(), String>, load_bin: fn(&str) -> Result<Circuit, String>,
    w_to_json: fn(&Witness) -> Result<String, String>, w_from_json: fn(&str) -> Result<Witness, String>, w_save: fn(&Witness, &str) -> Result<(), String>, w_load: fn(&str) -> Result<Witness, String>,
    t_save: fn(&Case, &str) -> Result<(), String>, t_load: fn(&str) -> Result<Case, String>,
}
package!(cli, pure_cli::serializable);
package!(core, pure_core::serializable);
const APIS: [(&str, Api); 2] = [("zkenc-cli", cli::API), ("zkenc-core", core::API)];

fn ok<T>(cx: &mut Ctx, what: &str, r: Result<Result<T, String>, String>) -> Option<T> {
    match r { Ok(Ok(v)) => Some(v), Ok(Err(e)) => { cx.violation("export:error", format!("{}: {}", what, e)); None } Err(e) => { cx.violation("export:panic", format!("{}: panic {}", what, e)); None } }
}
/// every way of passing a circuit from package `w` to package `r`
fn pass(cx: &mut Ctx, c: &Circuit) {
    for (wn, w) in &APIS { for (rn, r) in &APIS {
        let p = format!("{}/x", mc::scratch());
        if let Some(j) = { let v = cx.call(|| (w.to_json)(c)); ok(cx, "to_json", v) } { let v = cx.call(|| (r.from_json)(&j)); if let Some(g) = ok(cx, "from_json", v) { same(cx, &g, c, &format!("JSON {} to {}", wn, rn)); } }
        if let Some(b) = { let v = cx.call(|| (w.to_bin)(c)); ok(cx, "to_bincode", v) } { let v = cx.call(|| (r.from_bin)(&b)); if let Some(g) = ok(cx, "from_bincode", v) { same(cx, &g, c, &format!("binary {} to {}", wn, rn)); } }
        let v = cx.call(|| (w.save_json)(c, &p)); if ok(cx, "save_json", v).is_some() { let v = cx.call(|| (r.load_json)(&p)); if let Some(g) = ok(cx, "load_json", v) { same(cx, &g, c, &format!("JSON file {} to {}", wn, rn)); } }
        let v = cx.call(|| (w.save_bin)(c, &p)); if ok(cx, "save_bincode", v).is_some() { let v = cx.call(|| (r.load_bin)(&p)); if let Some(g) = ok(cx, "load_bincode", v) { same(cx, &g, c, &format!("binary file {} to {}", wn, rn)); } }
    } }
    cx.state(c); cx.outcome("passed");
}
fn clip(s: String) -> String { s.chars().take(300).collect() }
fn same<T: PartialEq + std::fmt::Debug>(cx: &mut Ctx, got: &T, want: &T, what: &str) { cx.traced(); cx.check(got == want, "export:differs", || format!("{}: loaded {} saved {}", what, clip(format!("{:?}", got)), clip(format!("{:?}", want)))); }
fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["main.out", "", "\"", "\\", "\\\"", "\n", "\r\n", "\t", "\0", "\u{1f}", "\u{7f}", "null", "é", "測試", "😀", "\u{2028}\u{2029}", "\u{feff}x", "\u{fffd}", "a/b", " lead and trail ", "{\"a\":1}", "\u{10ffff}", "\\u0041", "main.a[0]"].map(String::from).to_vec();
    v.push("x".repeat(70_000)); v
}
pub fn run() {
    let n32 = [9u32, 0, 1, 127, 128, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    let bytes: Vec<Vec<u8>> = vec![vec![1, 2, 3], vec![], vec![0], vec![0; 32], vec![255; 32], (0..=255).collect(), coef(48, 1), coef(1000, 2), coef(70_000, 3)];
    let tx = texts();
    let lcs: Vec<Lc> = vec![vec![(1, vec![5])], vec![], vec![(0, vec![])], vec![(u32::MAX, vec![255; 32]), (0, vec![0])], vec![(3, vec![1]), (3, vec![2]), (2, vec![3])], (0..70u32).rev().map(|i| (i, coef(2, i as u64))).collect(), vec![(1, coef(33, 5)), (2, coef(48, 6)), (3, coef(64, 7)), (4, coef(257, 8))], vec![(9, coef(70_000, 9))]];
    explore("circuit", "every field over boundary values, empty and long collections, any text; all pairs (thorough: triples) of deviations from a small circuit; every route between and within both packages", tier(2, 3), |cx| {
        let (fs, nw, po, pi, pr, nc) = (*cx.dev_pick(&n32), *cx.dev_pick(&n32), *cx.dev_pick(&n32), *cx.dev_pick(&n32), *cx.dev_pick(&n32), *cx.dev_pick(&n32));
        let prime = cx.dev_pick(&bytes).clone();
        let shape = cx.dev(4);
        let mut cs: Vec<[Lc; 3]> = (0..[1, 0, 2, 150][shape]).map(|i| [vec![(i, vec![i as u8])], vec![], vec![(2, vec![9])]]).collect();
        if shape == 0 { for k in 0..3 { cs[0][k] = cx.dev_pick(&lcs).clone(); } }
        let labels = match cx.dev(5) { 0 => None, 1 => Some(BTreeMap::new()), 2 => { let t = cx.pick(&tx).clone(); Some(BTreeMap::from([(0, t)])) } 3 => { let k = *cx.pick(&n32); Some(BTreeMap::from([(k, "k".into()), (7, "seven".into())])) } _ => Some((0..300u32).map(|i| (i * 7, format!("main.w{}", i))).collect()) };
        let c = Circuit { base: R1cs { field_size: fs, prime, n_wires: nw, n_pub_out: po, n_pub_in: pi, n_prv_in: pr, n_labels: 0, constraints: cs, labels: None }, n_constraints: nc, labels };
        cx.sample(|| clip(format!("{:?}", c)));
        pass(cx, &c);
    });
    // each number field carries its own value: every permutation of distinct values
    explore("numbers", "all assignments of 6 distinct numbers to the 6 number fields", 0, |cx| {
        let p = cx.permutation(6); let v: Vec<u32> = p.iter().map(|i| [1u32, 300, 70_000, 0x0102_0304, 0x8000_0000, u32::MAX][*i]).collect();
        pass(cx, &Circuit { base: R1cs { field_size: v[0], prime: vec![7], n_wires: v[1], n_pub_out: v[2], n_pub_in: v[3], n_prv_in: v[4], n_labels: 0, constraints: vec![[vec![(1, vec![1])], vec![(2, vec![2])], vec![(3, vec![3])]]], labels: None }, n_constraints: v[5], labels: None });
    });
    let wits: Vec<Witness> = { let mut v = vec![Witness::new()]; for k in n32 { for b in &bytes[..7] { v.push(Witness::from([(k, b.clone())])); } } v.push((0..1000).map(|i| (i, coef(32, i as u64))).collect()); v.push(BTreeMap::from([(0, vec![1]), (u32::MAX, vec![]), (5, coef(70_000, 1))])); v };
    explore("witness", "empty, single entries over boundary keys and byte strings, 1000 entries; memory and file, both packages", 0, |cx| {
        let w = cx.pick(&wits).clone(); let (wn, a) = cx.pick(&APIS); let (rn, r) = cx.pick(&APIS);
        cx.state(&w); let p = format!("{}/w", mc::scratch());
        let v = cx.call(|| (a.w_to_json)(&w)); if let Some(j) = ok(cx, "witness to_json", v) { let v = cx.call(|| (r.w_from_json)(&j)); if let Some(g) = ok(cx, "witness from_json", v) { same(cx, &g, &w, &format!("witness JSON {} to {}", wn, rn)); } }
        let v = cx.call(|| (a.w_save)(&w, &p)); if ok(cx, "witness save", v).is_some() { let v = cx.call(|| (r.w_load)(&p)); if let Some(g) = ok(cx, "witness load", v) { same(cx, &g, &w, &format!("witness file {} to {}", wn, rn)); } }
        cx.outcome("passed");
    });
    let base = |cs: usize| Circuit { base: crate::c06::distinct(4, 9, &vec![[1, 1, 1]; cs], false), n_constraints: cs as u32, labels: None };
    let plain = |mut c: Circuit| { c.base.n_labels = 0; c };
    explore("case", "test cases over every text as name and description, with and without labels, witness entries", 2, |cx| {
        let (wn, a) = cx.pick(&APIS); let (rn, r) = cx.pick(&APIS);
        let name = cx.dev_pick(&tx).clone(); let description = match cx.dev(tx.len() + 1) { 0 => None, i => Some(tx[i - 1].clone()) };
        let mut c = plain(base(cx.dev(3))); if cx.dev(2) == 1 { c.labels = Some(BTreeMap::from([(1, "l".into())])); }
        let t = Case { circuit: c, witness: cx.dev_pick(&wits).clone(), name, description };
        cx.state(&t); let p = format!("{}/t", mc::scratch());
        let v = cx.call(|| (a.t_save)(&t, &p)); if ok(cx, "case save", v).is_some() { let v = cx.call(|| (r.t_load)(&p)); if let Some(g) = ok(cx, "case load", v) { same(cx, &g, &t, &format!("test case {} to {}", wn, rn)); } }
        cx.outcome("passed");
    });
    // histories of saves and loads over shared paths
    let vals: Vec<Circuit> = vec![plain(base(0)), plain(base(3)), { let mut c = plain(base(1)); c.labels = Some(BTreeMap::from([(1, "x".repeat(5000))])); c }, { let mut c = plain(base(3)); c.base.n_prv_in ^= 1; c.base.constraints[2][2][0].1[3] ^= 1; c }];
    let ws = [Witness::from([(3, vec![1, 2, 3])]), Witness::from([(3, vec![1, 2, 4])])]; let ts: Vec<Case> = [0, 1].iter().map(|i| Case { circuit: vals[0].clone(), witness: ws[*i].clone(), name: "n".into(), description: None }).collect();
    explore("history", "all sequences of 3 (thorough 4) operations: save JSON or binary of 4 circuits (two of equal length), one of two witnesses of equal length or of two test cases, by either package, on 2 paths, each followed by loads; a load sees exactly the last save", 0, |cx| {
        #[derive(Clone, PartialEq, Debug, Hash)] enum K { J(usize), B(usize), W(usize), T(usize) }
        let d = mc::scratch(); let paths = [format!("{}/p", d), format!("{}/q", d)];
        for p in &paths { let _ = std::fs::remove_file(p); }
        let mut st: [Option<(K, usize)>; 2] = [None, None];
        let save = |cx: &mut Ctx, a: &crate::c08::Api, k: &K, p: &str| { let r = match k { K::J(i) => cx.call(|| (a.save_json)(&vals[*i], p)), K::B(i) => cx.call(|| (a.save_bin)(&vals[*i], p)), K::W(i) => cx.call(|| (a.w_save)(&ws[*i], p)), K::T(i) => cx.call(|| (a.t_save)(&ts[*i], p)) }; ok(cx, "save", r); };
        for s in 0..tier(3, 4) {
            let i = if s == 0 { 0 } else { cx.choose(2) }; let by = cx.choose(2); let k = cx.choose(12);
            let k = match k { 0..=3 => K::J(k), 4..=7 => K::B(k - 4), 8 | 9 => K::W(k - 8), _ => K::T(k - 10) };
            save(cx, &APIS[by].1, &k, &paths[i]); st[i] = Some((k, by)); cx.state(&st);
        }
        for i in 0..2 { let a = &APIS[i].1; let Some((k, by)) = &st[i] else {
                let v = cx.call(|| (a.load_json)(&paths[i])); cx.check(matches!(v, Ok(Err(_))), "export:absent", || "loading an absent file succeeded".into()); let v = cx.call(|| (a.load_bin)(&paths[i])); cx.check(matches!(v, Ok(Err(_))), "export:absent", || "loading an absent file succeeded".into()); continue };
            match k {
                K::J(k) => { let v = cx.call(|| (a.load_json)(&paths[i])); if let Some(g) = ok(cx, "load", v) { same(cx, &g, &vals[*k], "after history"); } }
                K::B(k) => { let v = cx.call(|| (a.load_bin)(&paths[i])); if let Some(g) = ok(cx, "load", v) { same(cx, &g, &vals[*k], "after history"); } }
                K::W(k) => { let v = cx.call(|| (a.w_load)(&paths[i])); if let Some(g) = ok(cx, "load", v) { same(cx, &g, &ws[*k], "after history"); } }
                K::T(k) => { let v = cx.call(|| (a.t_load)(&paths[i])); if let Some(g) = ok(cx, "load", v) { same(cx, &g, &ts[*k], "after history"); } } }
            let f = format!("{}/fresh", d); let _ = std::fs::remove_file(&f); save(cx, &APIS[*by].1, k, &f); same_file(cx, &paths[i], &f);
        }
        cx.outcome("histories");
    });
    explore("save-failure", "saving into a missing directory, onto a directory, onto a full device", 0, |cx| {
        let (n, a) = cx.pick(&APIS); let k = cx.choose(4); let w = Witness::from([(3, vec![1, 2, 3])]);
        let full = mc::Full::new(); let (what, p) = [("missing directory", format!("{}/nowhere/d/x", mc::scratch())), ("directory", mc::scratch()), ("full device", full.path())][cx.choose(3)].clone();
        let t = Case { circuit: vals[1].clone(), witness: w.clone(), name: "n".into(), description: None };
        let r = match k { 0 => cx.call(|| (a.save_json)(&vals[1], &p)), 1 => cx.call(|| (a.save_bin)(&vals[1], &p)), 2 => cx.call(|| (a.w_save)(&w, &p)), _ => cx.call(|| (a.t_save)(&t, &p)) };
        cx.check(matches!(r, Ok(Err(_))), "export:save-lie", || format!("{}: saving to a {} did not report an error: {:?}", n, what, r)); cx.outcome("refused"); cx.traced();
    });
    explore("truncated", "every proper prefix of exports (binary, JSON; circuit, witness, case)", 0, |cx| {
        let (n, a) = cx.pick(&APIS); let k = cx.choose(4); let d = mc::scratch(); let p = format!("{}/tr", d); let _ = std::fs::remove_file(&p);
        let w = Witness::from([(3, vec![1, 2, 3])]); let t = Case { circuit: vals[0].clone(), witness: w.clone(), name: "n".into(), description: None };
        let r = cx.call(|| match k { 0 => (a.save_json)(&vals[0], &p), 1 => (a.save_bin)(&plain(base(1)), &p), 2 => (a.w_save)(&w, &p), _ => (a.t_save)(&t, &p) }); if ok(cx, "save", r).is_none() { return; }
        let b = std::fs::read(&p).unwrap_or_default(); if b.is_empty() { return cx.violation("export:nothing-saved", format!("{} kind {}", n, k)); } let c = cx.choose(b.len());
        if std::str::from_utf8(&b[c..]).map_or(false, |s| s.trim().is_empty()) && k != 1 { return; }
        std::fs::write(&p, &b[..c]).unwrap();
        let r = cx.call(|| match k { 0 => (a.load_json)(&p).is_ok(), 1 => (a.load_bin)(&p).is_ok(), 2 => (a.w_load)(&p).is_ok(), _ => (a.t_load)(&p).is_ok() });
        cx.traced(); cx.check(r == Ok(false), "export:accepted-cut", || format!("{} kind {} cut to {} of {}: {:?}", n, k, c, b.len(), r)); cx.outcome("refused");
    });
}
/// saving over something leaves exactly what saving to a fresh path leaves
fn same_file(cx: &mut Ctx, p: &str, fresh: &str) { let b = std::fs::read(p).unwrap_or_default(); let f = std::fs::read(fresh).unwrap_or_default(); cx.check(b == f, "export:file-content", || format!("{} bytes on disk, {} on a fresh path", b.len(), f.len())); }
