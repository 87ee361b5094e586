//! Circuit files are read completely and faithfully (command line reader).
use crate::file;
use mc::formats::*;
use mc::{explore, tier, Ctx};
use pure_cli::r1cs::{LinearCombination, R1csFile};
use pure_cli::serializable::{SerializableCircuit, SerializableLC};

fn lc(l: &LinearCombination) -> Lc { l.factors.clone() }
fn slc(l: &SerializableLC) -> Lc { l.factors.iter().map(|f| (f.wire_id, f.coefficient_bytes.clone())).collect() }
pub fn of_file(f: &R1csFile) -> R1cs {
    R1cs { field_size: f.field_size, prime: f.prime.clone(), n_wires: f.n_wires, n_pub_out: f.n_pub_out, n_pub_in: f.n_pub_in, n_prv_in: f.n_prv_in, n_labels: f.n_labels,
        constraints: f.constraints.iter().map(|c| [lc(&c.a), lc(&c.b), lc(&c.c)]).collect(), labels: Some(f.wire2label.clone()) }
}
fn of_export(s: &SerializableCircuit, like: &R1cs) -> R1cs {
    R1cs { field_size: s.field_size, prime: s.prime_bytes.clone(), n_wires: s.n_wires, n_pub_out: s.n_pub_out, n_pub_in: s.n_pub_in, n_prv_in: s.n_prv_in, n_labels: like.n_labels,
        constraints: s.constraints.iter().map(|c| [slc(&c.a), slc(&c.b), slc(&c.c)]).collect(), labels: like.labels.clone() }
}
/// first difference, for messages
pub fn diff(got: &R1cs, want: &R1cs) -> String {
    macro_rules! f { ($($n:ident)*) => { $( if got.$n != want.$n { let s = format!("{}: read {:?}, file has {:?}", stringify!($n), got.$n, want.$n); return s.chars().take(400).collect(); } )* } }
    f!(field_size prime n_wires n_pub_out n_pub_in n_prv_in n_labels);
    if got.constraints.len() != want.constraints.len() { return format!("{} constraints read, file has {}", got.constraints.len(), want.constraints.len()); }
    for (i, (g, w)) in got.constraints.iter().zip(&want.constraints).enumerate() { for k in 0..3 { if g[k] != w[k] {
        let j = g[k].iter().zip(&w[k]).position(|(x, y)| x != y).unwrap_or(g[k].len().min(w[k].len()));
        return format!("constraint {} part {}: {} factors read, file has {}; first difference at factor {}", i, ["A", "B", "C"][k], g[k].len(), w[k].len(), j); } } }
    f!(labels);
    "equal".into()
}
/// the reader must return exactly `m` for `bytes`
fn expect(cx: &mut Ctx, bytes: &[u8], m: &R1cs, what: &str) {
    let p = file("c.r1cs", bytes);
    let r = cx.call(|| R1csFile::from_file(&p));
    let mut want = m.clone();
    if want.labels.is_none() { want.labels = Some((0..want.n_wires as u64).collect()); }
    cx.state(bytes); cx.traced();
    let f = match r {
        Err(e) => return cx.violation("cli-reader:panic", format!("{}: panic {}", what, e)),
        Ok(Err(e)) => return cx.violation("cli-reader:refused", format!("{}: well-formed file refused: {:#}", what, e)),
        Ok(Ok(f)) => f,
    };
    let got = of_file(&f);
    cx.check(got == want, "cli-reader:differs", || format!("{}: {}", what, diff(&got, &want)));
    cx.check(f.n_constraints as usize == m.constraints.len(), "cli-reader:count", || format!("{}: n_constraints {} but file has {}", what, f.n_constraints, m.constraints.len()));
    match cx.call(|| f.n_public_inputs()) {
        Ok(n) => { cx.check(n as u64 == m.n_pub_out as u64 + m.n_pub_in as u64, "cli-reader:public", || format!("{}: n_public_inputs() = {}, file has {}+{}", what, n, m.n_pub_out, m.n_pub_in)); }
        Err(e) => cx.violation("cli-reader:public", format!("{}: n_public_inputs() panics: {}", what, e)),
    }
    match cx.call(|| f.to_serializable()) {
        Ok(s) => {
            let got = of_export(&s, &want);
            cx.check(got == want && s.n_constraints as usize == m.constraints.len(), "cli-export:differs", || format!("{}: export: {} (n_constraints {})", what, diff(&got, &want), s.n_constraints));
        }
        Err(e) => cx.violation("cli-export:differs", format!("{}: to_serializable panics: {}", what, e)),
    }
    cx.outcome("read");
}
/// Distinct everything: any swapped, dropped or displaced element changes the result.
pub fn distinct(fs: usize, nw: u32, shape: &[[usize; 3]], labels: bool) -> R1cs {
    let mut seed = 1; let mut k = 0u32;
    let constraints = shape.iter().map(|s| { let mut c: [Lc; 3] = Default::default();
        for (i, n) in s.iter().enumerate() { for _ in 0..*n { seed += 1; k = k.wrapping_mul(5).wrapping_add(3); c[i].push((k % nw, coef(fs, seed))); } } c }).collect();
    R1cs { field_size: fs as u32, prime: coef(fs, 999), n_wires: nw, n_pub_out: 2, n_pub_in: 1, n_prv_in: 3, n_labels: 77, constraints, labels: labels.then(|| (0..nw as u64).map(|i| i * 0x0101_0101_0101 + 5).collect()) }
}
pub fn run() {
    // any order of the sections, with and without labels, with up to two unknown sections anywhere
    let unknown_types = [0u32, 4, 5, 0x0100_0001, u32::MAX];
    let sizes = [0usize, 1, 8, 4096, 8191, 8192, 8193, 70_000];
    explore("layout", "2-3 known sections in every order, 0..2 unknown sections at every place, 5 unknown types, 8 sizes up to 70000 bytes", tier(3, 9), |cx| {
        let labels = cx.flag();
        let m = distinct(8, 7, &[[1, 2, 0], [0, 0, 3], [2, 1, 1]], labels);
        let s = m.sections();
        let perm = cx.permutation(s.len());
        let mut v: Vec<(u32, Vec<u8>)> = perm.iter().map(|i| s[*i].clone()).collect();
        let extra = cx.choose(3);
        for j in 0..extra {
            let at = cx.choose(v.len() + 1);
            let t = *cx.dev_pick(&unknown_types); let n = *cx.dev_pick(&sizes);
            // content that would decode as something else if it were interpreted
            let mut body = vec![0u8; n]; for (i, b) in body.iter_mut().enumerate() { *b = [1, 0, 0, 0, 2, 0xff][(i + j) % 6]; }
            v.insert(at, (t, body));
        }
        cx.sample(|| format!("sections {:?}", v.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>()));
        expect(cx, &container(b"r1cs", 1, &v), &m, &format!("sections {:?}", v.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>()));
    });
    explore("section-count", "200 to 70000 sections, the known ones first, in the middle or last", 0, |cx| {
        let n = *cx.pick(&[200usize, 252, 253, 254, 255, 256, 257, 300, 1000, 65_532, 65_536, 70_000]); let place = cx.choose(3);
        let m = distinct(8, 6, &[[1, 2, 0], [0, 0, 3], [2, 1, 1]], true); let mut v: Vec<(u32, Vec<u8>)> = (0..n).map(|k| (100 + k as u32, vec![k as u8; k % 3])).collect();
        let at = [0, n / 2, n][place]; v.splice(at..at, m.sections());
        expect(cx, &container(b"r1cs", 1, &v), &m, &format!("{} unknown sections, the known ones from place {}", n, at));
    });
    // field sizes
    let fss: Vec<usize> = (1..=tier(40, 300)).chain([48, 63, 64, 65, 96, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_536]).collect();
    explore("field-size", "every field size 1..40 (thorough 300) and boundaries to 65536, with and without constraints and labels", 0, |cx| {
        let fs = *cx.pick(&fss); let labels = cx.flag(); let nc = cx.choose(3);
        let m = distinct(fs, 5, &[[2, 1, 1], [1, 0, 2]][..nc], labels);
        cx.sample(|| format!("field size {} constraints {}", fs, nc));
        expect(cx, &m.bytes(), &m, &format!("field size {}", fs));
    });
    // sizes of linear combinations and constraint lists, around powers of two
    let mut ns: Vec<usize> = (0..=tier(40, 140)).collect();
    for p in [64usize, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192] { ns.extend([p - 1, p, p + 1]); }
    ns.extend([65_535, 65_536, 65_537]);
    explore("lc-size", "0..40 (thorough 140) and p-1,p,p+1 up to 65537 factors, in each of A, B, C, alone and followed by another constraint", 0, |cx| {
        let n = *cx.pick(&ns); let part = cx.choose(3); let follow = cx.flag(); let fs = *cx.pick(&[1usize, 32]);
        if n > 9000 && fs == 32 && !mc::thorough() { return; }
        let mut sh = vec![[1, 1, 1]]; sh[0][part] = n; if follow { sh.push([2, 1, 3]); }
        let m = distinct(fs, 70_000, &sh, false);
        let m = R1cs { labels: if n == 3 { Some((0..70_000u64).rev().collect()) } else { None }, ..m };
        expect(cx, &m.bytes(), &m, &format!("{} factors in part {}", n, part));
    });
    let mut ncs: Vec<usize> = (0..=tier(40, 300)).collect();
    for p in [64usize, 128, 255, 256, 512, 1000, 1024, 2048, 4096] { ncs.extend([p - 1, p, p + 1]); }
    ncs.extend([65_535, 65_536, 65_537]);
    explore("constraint-count", "0..40 (thorough 300) and p-1,p,p+1 up to 65537 constraints", 0, |cx| {
        let n = *cx.pick(&ncs); let k = cx.choose(2);
        let sh: Vec<[usize; 3]> = (0..n).map(|i| if k == 0 { [1, 0, 0] } else { [i % 3, (i / 3) % 3, (i / 9) % 2] }).collect();
        let m = distinct(1, 9, &sh, false);
        expect(cx, &m.bytes(), &m, &format!("{} constraints", n));
    });
    // header values
    let w = [4u32, 5, 255, 256, 65_535, 65_536, 1_000_000];
    let u = [0u32, 1, 2, 127, 128, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    let l = [0u64, 1, 255, 256, 65_536, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX];
    explore("header", "boundary values of every header field; pairs (thorough: all combinations) of deviations", tier(2, 4), |cx| {
        let nw = *cx.dev_pick(&w);
        let out = *cx.dev_pick(&u); let inp = *cx.dev_pick(&u); let prv = *cx.dev_pick(&u); let nl = *cx.dev_pick(&l);
        if out as u64 + inp as u64 >= nw as u64 { return; }
        let mut m = distinct(4, nw, &[[1, 1, 1]], false);
        m.n_pub_out = out; m.n_pub_in = inp; m.n_prv_in = prv; m.n_labels = nl;
        expect(cx, &m.bytes(), &m, &format!("wires {} out {} in {} prv {} labels {}", nw, out, inp, prv, nl));
    });
    explore("labels", "label tables of 1..64 and boundary lengths with boundary values at every place", 0, |cx| {
        let nw = *cx.pick(&[4u32, 5, 6, 7, 8, 9, 16, 31, 32, 33, 64, 1023, 1024, 1025, 8192]);
        let v = *cx.pick(&l); let at = cx.choose((nw as usize).min(12));
        let mut m = distinct(4, nw, &[[1, 0, 1]], true);
        m.labels.as_mut().unwrap()[at] = v; let last = nw as usize - 1; m.labels.as_mut().unwrap()[last] ^= v;
        expect(cx, &m.bytes(), &m, &format!("label {} of {} = {}", at, nw, v));
    });
    // every buffer alignment
    let shifts: Vec<usize> = if mc::thorough() { (0..17_000).collect() } else { (0..64).chain(7700..8300).chain(16_300..16_420).collect() };
    explore("alignment", "a leading unknown section of every size that moves the content across the reader's buffer boundaries", 0, |cx| {
        let n = *cx.pick(&shifts); let rev = cx.flag();
        let m = distinct(8, 6, &[[1, 2, 0], [0, 0, 3], [2, 1, 1]], true);
        let mut s = m.sections(); if rev { s.reverse(); }
        s.insert(0, (9, vec![0xA5; n]));
        expect(cx, &container(b"r1cs", 1, &s), &m, &format!("shift {}", n));
    });
    // every small constraint
    let mut f: Vec<Lc> = vec![vec![]];
    let atoms: Vec<(u32, Vec<u8>)> = (0..3u32).flat_map(|w| [0u8, 1, 0xfe].map(|c| (w, vec![c]))).collect();
    for a in &atoms { f.push(vec![a.clone()]); }
    for a in &atoms { for b in &atoms { f.push(vec![a.clone(), b.clone()]); } }
    explore("small", "every linear combination of at most two factors over 3 wires and 3 coefficients, in two (thorough: all three) of A, B, C", 0, |cx| {
        let skip = if mc::thorough() { 3 } else { cx.choose(3) };
        let mut c: [Lc; 3] = [vec![(1, vec![7])], vec![(2, vec![8]), (0, vec![9])], vec![]];
        for k in 0..3 { if k != skip { c[k] = cx.pick(&f).clone(); } }
        let m = R1cs { field_size: 1, prime: vec![0xfb], n_wires: 3, n_pub_out: 1, n_pub_in: 0, n_prv_in: 1, n_labels: 3, constraints: vec![c], labels: None };
        expect(cx, &m.bytes(), &m, "small");
    });
    // the circuits shipped with the repository
    let ship = ["/repo/packages/zkenc-cli/tests/r1cs/signature.r1cs", "/repo/packages/zkenc-cli/tests/r1cs/sudoku.r1cs", "/repo/packages/zkenc-js/tests/fixtures/sudoku.r1cs", "/repo/packages/zkenc-js/tests/fixtures/merkle_membership.r1cs"];
    explore("shipped", "the circuit files of the repository, against the reference reader", 0, |cx| {
        let p = cx.pick(&ship);
        let Ok(b) = std::fs::read(p) else { return };
        if let Verdict::Valid(m) = read_r1cs(&b, true) { expect(cx, &b, &m, p); } else { panic!("reference reader refuses {}", p) }
    });
}
