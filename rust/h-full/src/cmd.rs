//! The command line operations, called as main.rs calls them, over real files in a scratch directory.
use crate::util::*;
use ark_bn254::Fr;
use ark_ff::{One, Zero};
use getrandom::control::{self, Source};
use mc::formats::*;
use mc::{explore, tier, Ctx};
use std::collections::HashSet;
use std::sync::Mutex;

/// A circuit with its satisfying assignments (the same publics in all).
#[derive(Clone)]
pub struct Case { pub name: &'static str, pub m: R1cs, pub a: Vec<Vec<Fr>> }
fn one(w: u32) -> Lc { vec![(w, num(1))] }
pub fn cases() -> Vec<Case> {
    let f = |x: u64| Fr::from(x);
    vec![
        Case { name: "square", m: net(0, 1, 1, vec![[one(2), one(2), one(1)]]), a: vec![vec![f(1), f(25), f(5)], vec![f(1), f(25), -f(5)]] },
        Case { name: "product with output", m: net(1, 1, 2, vec![[one(3), one(2), one(1)], [one(4), one(4), one(3)]]), a: vec![vec![f(1), f(36), f(4), f(9), f(3)], vec![f(1), f(36), f(4), f(9), -f(3)]] },
        Case { name: "two inputs", m: net(0, 2, 1, vec![[one(1), one(2), one(3)]]), a: vec![vec![f(1), -f(1), f(7), -f(7)]] },
    ]
}
impl Case {
    pub fn np(&self) -> usize { n_pub(&self.m) }
    pub fn publics(&self) -> &[Fr] { &self.a[0][1..=self.np()] }
    pub fn json(&self) -> String { inputs(self.publics()) }
}
fn base64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3).map(|c| { let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32; (0..4).map(|i| if i > c.len() { '=' } else { T[(n >> (18 - 6 * i)) as usize & 63] as char }).collect::<String>() }).collect()
}
/// Any eight consecutive bytes of the secret, in any common spelling.
fn leaks(hay: &[u8], secret: &[u8]) -> Option<&'static str> {
    use crate::core::contains; let low = hay.to_ascii_lowercase(); let n = 8.min(secret.len()); if n < 4 { return None; }
    for (i, w) in secret.windows(n).enumerate() {
        if contains(hay, w) { return Some("raw"); }
        if contains(&low, w.iter().map(|b| format!("{:02x}", b)).collect::<String>().as_bytes()) { return Some("hex"); }
        for sep in [", ", ",", " "] { if contains(hay, w.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(sep).as_bytes()) { return Some("decimal"); } }
        if contains(&low, w.iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" ").as_bytes()) || contains(&low, w.iter().map(|b| format!("{:x}", b)).collect::<Vec<_>>().join(", ").as_bytes()) || contains(&low, w.iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(":").as_bytes()) { return Some("hex"); }
        let _ = i; let e = base64(&w[..n / 3 * 3]); if e.len() >= 8 && contains(hay, e.as_bytes()) { return Some("base64"); }
    }
    None
}
/// The same of text, where even four bytes cannot agree by chance: numbers in any layout, hexadecimal in any grouping.
fn leaks_text(hay: &[u8], secret: &[u8]) -> Option<&'static str> {
    use crate::core::contains; if let Some(h) = leaks(hay, secret) { return Some(h); } if secret.len() < 12 { return None; }
    let t = String::from_utf8_lossy(hay).to_ascii_lowercase(); let nums: Vec<u64> = t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    let hex: String = t.replace("0x", "").chars().filter(|c| c.is_ascii_hexdigit()).collect(); let rev: Vec<u8> = secret.iter().rev().copied().collect();
    for s in [secret, &rev] {
        for w in s.windows(4) {
            if contains(t.as_bytes(), w.iter().map(|b| format!("{:02x}", b)).collect::<String>().as_bytes()) { return Some("hex"); }
            for step in [1, 2] { if (0..nums.len().saturating_sub(3 * step)).any(|i| (0..4).all(|j| nums[i + j * step] == w[j] as u64)) { return Some("decimal"); } }
        }
        for w in s.windows(6) { if hex.contains(&w.iter().map(|b| format!("{:02x}", b)).collect::<String>()) || hex.contains(&w.iter().map(|b| format!("{:x}", b)).collect::<String>()) && w.iter().all(|b| *b > 15) { return Some("hex"); } let e = base64(w); let u = e.replace('+', "-").replace('/', "_"); if contains(hay, e.as_bytes()) || contains(hay, u.as_bytes()) { return Some("base64"); } }
    }
    None
}
/// Console output together with the reported error.
fn told((r, mut out): (Outcome, Vec<u8>)) -> (Outcome, Vec<u8>) { if let Ok(Err(e)) | Err(e) = &r { out.extend(b"\n"); out.extend(e.as_bytes()); } (r, out) }
/// Layout of a combined ciphertext, by the documentation.
pub struct Parts { pub flag: u8, pub ct: Vec<u8>, pub json: Option<Vec<u8>>, pub msg: Vec<u8> }
pub fn split(b: &[u8]) -> Option<Parts> {
    let flag = *b.first()?; let l = u32::from_be_bytes(b.get(1..5)?.try_into().ok()?) as usize; let ct = b.get(5..5 + l)?.to_vec(); let mut p = 5 + l;
    let json = if flag == 1 { let l = u32::from_be_bytes(b.get(p..p + 4)?.try_into().ok()?) as usize; let j = b.get(p + 4..p + 4 + l)?.to_vec(); p += 4 + l; Some(j) } else { None };
    Some(Parts { flag, ct, json, msg: b[p..].to_vec() })
}
pub fn join(flag: u8, ct: &[u8], json: Option<&[u8]>, msg: &[u8]) -> Vec<u8> { let mut v = vec![flag]; v.extend((ct.len() as u32).to_be_bytes()); v.extend(ct); if let Some(j) = json { v.extend((j.len() as u32).to_be_bytes()); v.extend(j); } v.extend(msg); v }
/// The files of a case, written to the directory.
pub struct Files { pub d: Dir, pub c: String, pub s: String, pub i: String, pub w: String }
pub fn files(k: &Case) -> Files { let d = Dir::new(); let c = d.put("c.r1cs", k.m.bytes()); let s = d.put("c.sym", sym(&k.m)); let i = d.put("in.json", k.json()); let w = d.put("w.wtns", wtns(&k.a[0])); Files { d, c, s, i, w } }

/// Many public inputs: names by form, wires by order, one element left out at a place (or none).
fn many(cx: &mut Ctx, sig: &str) {
    let n: usize = *cx.pick(tier(&[10, 12, 33, 100, 257, 65_537], &[65_537, 4, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 100, 101, 128, 255, 256, 257, 300, 1000])); let form = cx.choose(4); let order = cx.choose(4); let lines = cx.choose(3); let enc = cx.flag();
    if n > 2000 && (form > 1 || order != 1 || lines == 2 || (enc && form == 0)) { return; } let cols = if n % 3 == 0 { 3 } else { 2 }; if form >= 2 && n % cols != 0 { return; }
    let name = |i: usize| match form { 0 => format!("p{}", i), 1 => format!("a[{}]", i), 2 => format!("a[{}][{}]", i / cols, i % cols), _ => format!("a[{}][{}]", i % (n / cols), i / (n / cols)) };
    let gcd = |mut a: usize, mut b: usize| { while b > 0 { (a, b) = (b, a % b); } a }; let step = [7usize, 11, 13, 3].into_iter().find(|k| gcd(*k, n) == 1).unwrap_or(1);
    let wire = |i: usize| 1 + match order { 0 => i, 1 => n - 1 - i, 2 => i * step % n, _ => (i + 3) % n };
    let places: Vec<usize> = if n <= 12 { (0..n).collect() } else { let mut v = vec![0, 1, 9, 10, 11, 31, 32, 63, 64, 99, 100, 255, 256, n / 2, n - 2, n - 1]; v.retain(|x| *x < n); v.sort(); v.dedup(); v };
    let miss = cx.choose(1 + places.len()); let gone = if miss == 0 { n } else { places[miss - 1] };
    let val = |i: usize| 5000 + i as u64; let v = |i: usize| val(i).to_string();
    let json = match form {
        0 => format!("{{{}}}", (0..n).filter(|i| *i != gone).map(|i| format!("\"p{}\":\"{}\"", i, v(i))).collect::<Vec<_>>().join(",")),
        1 => format!("{{\"a\":[{}]}}", (0..n.min(gone)).map(v).collect::<Vec<_>>().join(",")),
        2 => format!("{{\"a\":[{}]}}", (0..n / cols).map(|r| format!("[{}]", (r * cols..(r + 1) * cols).filter(|i| gone == n || i / cols != gone / cols || *i < gone).map(v).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")),
        _ => { let rows = n / cols; format!("{{\"a\":[{}]}}", (0..rows).map(|r| format!("[{}]", (0..cols).map(|c| c * rows + r).filter(|i| gone == n || i % rows != gone % rows || *i < gone).map(v).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")) } };
    let mut sy: Vec<String> = (0..n).map(|i| format!("{},{},0,main.{}", i + 1, wire(i), name(i))).collect(); match lines { 0 => {} 1 => sy.reverse(), _ => sy.sort() }
    let m = net((n / 3) as u32 * (lines == 1) as u32, (n - n / 3 * (lines == 1) as usize) as u32, 1, vec![]); let d = Dir::new(); let (c, s, i, msg) = (d.put("c", m.bytes()), d.put("s", sy.join("\n")), d.put("i", &json), d.put("m", b"x"));
    let mut want = vec![Fr::zero(); n]; for i in 0..n { want[wire(i) - 1] = Fr::from(val(i)); }
    let what = format!("{} public inputs, form {}, wire order {}, lines {}, missing {:?}", n, form, order, lines, (gone < n).then(|| name(gone))); cx.state(&what); cx.sample(|| what.clone());
    let r = if enc { cli_encrypt(&c, &s, &i, &msg, &d.p("out"), true) } else { cli_encap(&c, &s, &i, &d.p("out"), &d.p("key")) }; cx.op(); cx.traced();
    match r { Err(e) => cx.violation(&format!("{}:panic", sig), format!("{}: {}", what, e)),
        Ok(Ok(())) => { let b = d.get("out").unwrap_or_default(); let rec = if enc { split(&b).and_then(|p| recorded(&p.ct)) } else { recorded(&b) };
            if gone < n { return cx.violation(&format!("{}:incomplete-accepted", sig), format!("{}: recorded {:?} values", what, rec.map(|r| r.len()))); } cx.check(rec.as_deref() == Some(&want[..]), &format!("{}:recorded", sig), || format!("{}: recorded {:?}", what, rec.map(|r| r.into_iter().take(20).collect::<Vec<_>>()))); cx.outcome("recorded"); }
        Ok(Err(e)) => { cx.check(gone < n, &format!("{}:refused", sig), || format!("{}: {}", what, e)); cx.check(d.get("out").is_none() && d.get("key").is_none(), &format!("{}:output-on-error", sig), || what.clone()); cx.outcome("refused"); } }
}
const MANY: &str = "10 to 257 (thorough 4 to 1000), and 65537, public inputs as scalars, one array, rows or columns of a matrix x wires in order, reversed, strided, rotated x symbol lines in order, reversed, sorted as text (and the first third outputs) x none or one element missing at many places, through encap and encrypt";
pub fn c03() {
    explore("many-inputs", MANY, 0, |cx| many(cx, "many"));
    explore("commands", "layouts of up to 3 public wires (outputs, inputs) x each public value present, missing, misspelled, wrongly cased or prefixed (up to 2 such) x order of keys x order of symbol lines x additional entries and inner signals on public wires, through encap and encrypt: recorded publics are the given ones, or an error and no file", 2, |cx| {
        let (o, i, p) = *cx.pick(&[(0u32, 1u32, 1u32), (1, 1, 1), (1, 0, 1), (0, 2, 1), (2, 1, 1), (0, 3, 2), (2, 0, 0), (0, 1, 0)]); let m = net(o, i, p, vec![]); let np = n_pub(&m);
        let enc = cx.choose(3); let vals: Vec<Fr> = (0..np).map(|k| match cx.dev(3) { 0 => Fr::from(1000 + k as u64), 1 => Fr::zero(), _ => -Fr::one() }).collect();
        let states: Vec<usize> = (0..np).map(|_| cx.dev(6)).collect();
        let mut ent: Vec<(String, String)> = (0..np).filter(|k| states[*k] != 1).map(|k| (match states[k] { 2 => format!("p{}_", k + 1), 3 => format!("P{}", k + 1), 4 => format!("main.p{}", k + 1), 5 => format!("p{}[0]", k + 1), _ => format!("p{}", k + 1) }, format!("\"{}\"", dec(&vals[k])))).collect();
        let order = cx.permutation(ent.len().min(3)); let mut e2: Vec<_> = order.iter().map(|x| ent[*x].clone()).collect(); e2.extend(ent.drain(order.len()..)); let mut ent = e2;
        match cx.dev(5) { 0 => {} 1 => ent.insert(0, ("unrelated".into(), "77".into())), 2 => ent.push(("extra".into(), "[[1,2],[\"3\"]]".into())), 3 => ent.insert(0, (format!("s{}", np + 1), "5".into())), _ => ent.push(("".into(), "1".into())) }
        let mut lines: Vec<String> = sym(&m).lines().map(|l| l.to_string()).collect();
        match cx.dev(8) { 0 => {} 1 => lines.reverse(), 2 => lines.insert(0, "90,-1,3,main.inner".into()), 3 => lines.push("91,-1,3,main.p9".into()), 4 => lines.insert(1, format!("92,{},3,main.sub.tmp", m.n_wires - 1)),
            // inner signals that share a public wire and the name of another input
            5 => for k in 0..np { lines.insert(0, format!("{},{},3,main.sub.p{}", 93 + k, k + 1, np - k)); }, 6 => for k in 0..np { lines.push(format!("{},{},3,main.c.sub.p{}", 93 + k, (k + 1) % np + 1, k + 1)); }, _ => for k in 0..np { lines.push(format!("{},{},4,p{}", 93 + k, np - k, k + 1)); } }
        let json = format!("{{{}}}", ent.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        let d = Dir::new(); let (c, s, inp, msg) = (d.put("c", m.bytes()), d.put("s", lines.join("\n")), d.put("i", &json), d.put("m", b"hello"));
        cx.state(&(&json, &lines, (o, i, p), enc)); cx.sample(|| format!("{} outputs, {} inputs, {} private: {}", o, i, p, json));
        let r = if enc == 0 { cli_encap(&c, &s, &inp, &d.p("out"), &d.p("key")) } else { cli_encrypt(&c, &s, &inp, &msg, &d.p("out"), enc == 1) }; cx.op(); cx.traced();
        let what = || format!("{} outputs, {} inputs, {} private, {} with {} and symbols {:?}", o, i, p, if enc == 0 { "encap" } else { "encrypt" }, json, lines);
        let full = states.iter().all(|s| *s == 0);
        match r {
            Err(e) => cx.violation("commands:panic", format!("{}: {}", what(), e)),
            Ok(Ok(())) => { let b = d.get("out").unwrap_or_default(); let ct = if enc == 0 { Some(b) } else { split(&b).map(|p| p.ct) }; let rec = ct.and_then(|c| recorded(&c));
                if !full { return cx.violation("commands:incomplete-accepted", format!("{}: recorded {:?}", what(), rec)); }
                cx.check(rec.as_deref() == Some(&vals[..]), "commands:recorded", || format!("{}: recorded {:?}", what(), rec)); cx.outcome("recorded"); }
            Ok(Err(e)) => { cx.check(!full, "commands:refused", || format!("{}: {}", what(), e)); cx.check(d.get("out").is_none() && d.get("key").is_none(), "commands:output-on-error", || what()); cx.outcome("refused"); }
        }
    });
    explore("arrays", "public array inputs of several shapes given exactly, too short, as a scalar, transposed or as a flat list", 0, |cx| {
        let shapes: [(&[usize], &str); 5] = [(&[1], "[V0]"), (&[2], "[V0,V1]"), (&[2, 2], "[[V0,V1],[V2,V3]]"), (&[1, 3], "[[V0,V1,V2]]"), (&[3, 1], "[[V0],[V1],[V2]]")];
        let (dims, full) = *cx.pick(&shapes); let n: usize = dims.iter().product(); let m = net(0, n as u32, 1, vec![]);
        let bad: Vec<&str> = match dims { [1] => vec!["V0", "[]", "[[V0]]"], [2] => vec!["[V0]", "V0", "[]", "[[V0,V1]]", "[[V0],[V1]]"], [2, 2] => vec!["[V0,V1,V2,V3]", "[[V0,V1],[V2]]", "[[V0,V1]]", "[[V0],[V1],[V2],[V3]]", "[[V0,V1,V2,V3]]", "[]"], [1, 3] => vec!["[V0,V1,V2]", "[[V0],[V1],[V2]]", "[[V0,V1]]"], _ => vec!["[V0,V1,V2]", "[[V0,V1,V2]]", "[[V0],[V1]]"] };
        let k = cx.choose(1 + bad.len()); let mut j = if k == 0 { full } else { bad[k - 1] }.to_string(); for x in 0..n { j = j.replace(&format!("V{}", x), &format!("{}", 500 + x)); }
        let name = |x: usize| { let mut s = String::from("main.a"); let mut r = x; let mut st: usize = n; for dd in dims { st /= dd; s.push_str(&format!("[{}]", r / st)); r %= st; } s };
        let sy: String = (0..n).map(|x| format!("{},{},0,{}\n", x + 1, x + 1, name(x))).collect(); let json = format!("{{\"a\":{}}}", j); let enc = cx.flag();
        let d = Dir::new(); let (c, s, inp, msg) = (d.put("c", m.bytes()), d.put("s", &sy), d.put("i", &json), d.put("m", b"x"));
        cx.state(&(&json, dims, enc)); cx.sample(|| json.clone());
        let r = if enc { cli_encrypt(&c, &s, &inp, &msg, &d.p("out"), true) } else { cli_encap(&c, &s, &inp, &d.p("out"), &d.p("key")) }; cx.op(); cx.traced();
        match r { Err(e) => cx.violation("commands:panic", format!("{}: {}", json, e)),
            Ok(Ok(())) => { let b = d.get("out").unwrap_or_default(); let rec = if enc { split(&b).and_then(|p| recorded(&p.ct)) } else { recorded(&b) }; let want: Vec<Fr> = (0..n).map(|x| Fr::from(500 + x as u64)).collect();
                if k != 0 { return cx.violation("commands:incomplete-accepted", format!("shape {:?} given {}: recorded {:?}", dims, json, rec)); } cx.check(rec == Some(want), "commands:recorded", || format!("{}: {:?}", json, rec)); cx.outcome("recorded"); }
            Ok(Err(e)) => { cx.check(k != 0, "commands:refused", || format!("{}: {}", json, e)); cx.check(d.get("out").is_none() && d.get("key").is_none(), "commands:output-on-error", || json.clone()); cx.outcome("refused"); } }
    });
}
/// A decimal integer modulo the prime, by digits.
fn decimal(s: &str) -> Fr { let (n, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) }; let mut v = Fr::zero(); for c in t.bytes() { v = v * Fr::from(10u64) + Fr::from((c - b'0') as u64); } if n { -v } else { v } }
const P: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
pub const NUMBERS: [&str; 18] = ["7", "0", "1", "-1", "18446744073709551615", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "\"0\"", "\"-1\"", "\"18446744073709551616\"", "\"21888242871839275222246405745257275088548364400416034343698204186575808495616\"", "\"21888242871839275222246405745257275088548364400416034343698204186575808495617\"", "\"21888242871839275222246405745257275088548364400416034343698204186575808495622\"", "\"-21888242871839275222246405745257275088548364400416034343698204186575808495620\"", "\"115792089237316195423570985008687907853269984665640564039457584007913129639943\"", "\"-115792089237316195423570985008687907853269984665640564039457584007913129639943\"", "4294967296"];
pub fn c11() {
    assert!(decimal(P).is_zero());
    explore("many-inputs", MANY, 0, |cx| many(cx, "many"));
    let shapes: [&[usize]; 6] = [&[], &[2], &[1], &[2, 2], &[1, 2, 1], &[3]];
    explore("commands", "1..3 named inputs of 6 shapes on every order of wires and keys, values over 18 number spellings (1 unusual one, thorough 2), additional entries before or after, through encap and encrypt: each wire has exactly the value of its name", tier(1, 2), |cx| {
        let n = 1 + cx.choose(3); let sh: Vec<&[usize]> = (0..n).map(|k| if k == 0 { *cx.pick(&shapes) } else { shapes[[0, 1, 3][cx.choose(if n == 3 { 2 } else { 3 })]] }).collect();
        let names = ["b", "a", "c"]; let mut els: Vec<(String, String)> = vec![]; let mut ent: Vec<(String, String)> = vec![];
        for k in 0..n { let dims = sh[k]; let t: usize = dims.iter().product(); let mut leaves: Vec<String> = vec![];
            for x in 0..t { let v = if k == 0 || x == 0 { NUMBERS[cx.dev(NUMBERS.len())].to_string() } else { format!("{}", 40 + 10 * k + x) }; let mut nm = names[k].to_string(); let (mut r, mut st) = (x, t); for d in dims { st /= d; nm.push_str(&format!("[{}]", r / st)); r %= st; } els.push((nm, v.clone())); leaves.push(v); }
            for d in dims.iter().rev() { leaves = leaves.chunks(*d).map(|c| format!("[{}]", c.join(","))).collect(); }
            ent.push((names[k].into(), leaves[0].clone())); }
        // wires: names in a rotated or reversed order
        let np = els.len(); let rot = cx.choose(3.min(np)); let mut w: Vec<usize> = (0..np).map(|x| (x + rot) % np).collect(); if cx.flag() { w.reverse(); }
        let pm = cx.permutation(n); let mut e2: Vec<(String, String)> = pm.iter().map(|x| ent[*x].clone()).collect();
        match cx.dev(5) { 0 => {} 1 => e2.insert(0, ("zz".into(), "[[9],[8,7]]".into())), 2 => e2.push(("b_".into(), "\"12\"".into())), 3 => e2.insert(0, ("main".into(), "3".into())), _ => e2.push(("aa".into(), "[]".into())) }
        let m = net(0, np as u32, 1, vec![]); let sy: String = (0..np).map(|x| format!("{},{},0,main.{}\n", x + 1, w[x] + 1, els[x].0)).collect::<String>() + &format!("{},{},0,main.hidden\n", np + 1, np + 1) + &match cx.dev(3) { 0 => String::new(), 1 => (0..np).map(|x| format!("{},{},3,main.sub.{}\n", np + 2 + x, np - x, els[x].0)).collect::<String>(), _ => (0..np).map(|x| format!("{},{},3,{}\n", np + 2 + x, (x + 1) % np + 1, els[x].0)).collect::<String>() };
        let json = format!("{{{}}}", e2.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(", ")); let mut want = vec![Fr::zero(); np]; for x in 0..np { want[w[x]] = decimal(els[x].1.trim_matches('"')); }
        let enc = cx.flag(); let d = Dir::new(); let (c, s, i, msg) = (d.put("c", m.bytes()), d.put("s", &sy), d.put("i", &json), d.put("m", b"x"));
        cx.state(&(&json, &sy)); cx.sample(|| format!("{} with {:?}", json, sy));
        let r = if enc { cli_encrypt(&c, &s, &i, &msg, &d.p("o"), false) } else { cli_encap(&c, &s, &i, &d.p("o"), &d.p("k")) }; cx.op(); cx.traced();
        match r { Err(e) => cx.violation("wires:panic", format!("{} {:?}: {}", json, sy, e)), Ok(Err(e)) => cx.violation("wires:refused", format!("{} {:?}: {}", json, sy, e)),
            Ok(Ok(())) => { let b = d.get("o").unwrap_or_default(); let rec = if enc { split(&b).and_then(|p| recorded(&p.ct)) } else { recorded(&b) }; cx.check(rec.as_deref() == Some(&want[..]), "wires:value", || format!("{} with {:?}: recorded {:?}, expected {:?}", json, sy, rec, want)); cx.outcome("mapped"); } }
    });
    explore("odd-values", "values that are no plain integers: refused, or read as what they say", 0, |cx| {
        let odd: [(&str, Option<&str>); 17] = [("true", Some("1")), ("false", Some("0")), ("null", Some("0")), ("1.5", None), ("1e3", Some("1000")), ("\"0x10\"", Some("16")), ("\"\"", Some("0")), ("\"abc\"", None), ("\" 5\"", Some("5")), ("\"007\"", Some("7")), ("\"+7\"", Some("7")), ("18446744073709551616", Some("18446744073709551616")), ("-9223372036854775809", Some("-9223372036854775809")), ("{}", None), ("{\"x\":1}", None), ("\"1.5\"", None), ("-0", Some("0"))];
        let (j, want) = *cx.pick(&odd); let arr = cx.flag(); let m = net(0, 2, 1, vec![]); let json = if arr { format!("{{\"a\":[{},6]}}", j) } else { format!("{{\"a\":{},\"b\":6}}", j) }; let sy = if arr { "1,1,0,main.a[0]\n2,2,0,main.a[1]\n" } else { "1,1,0,main.a\n2,2,0,main.b\n" };
        let d = Dir::new(); let (c, s, i) = (d.put("c", m.bytes()), d.put("s", sy), d.put("i", &json)); cx.state(&json); cx.op(); cx.traced();
        match cli_encap(&c, &s, &i, &d.p("o"), &d.p("k")) { Err(e) => cx.violation("wires:panic", format!("{}: {}", json, e)), Ok(Err(_)) => { cx.check(d.get("o").is_none(), "wires:output-on-error", || json.clone()); cx.outcome("refused") }
            Ok(Ok(())) => { let rec = d.get("o").and_then(|b| recorded(&b)); cx.check(want.map_or(false, |w| rec == Some(vec![decimal(w), Fr::from(6u64)])), "wires:odd-value", || format!("{}: recorded {:?}", json, rec)); cx.outcome("read") } }
    });
}
/// Run on a fresh thread under controlled entropy; -> (result, bytes drawn, draws made).
fn drawn<T: Send>(seed: u64, fail: u64, flip: Option<(u64, u8)>, f: impl FnOnce() -> T + Send) -> Option<(T, u64, u64)> {
    std::thread::scope(|s| s.spawn(|| { control::install(Source::Seeded(seed), fail); if let Some((p, m)) = flip { control::flip(p, m); } let r = f(); let o = (r, control::bytes_drawn(), control::calls()); control::install(Source::System, u64::MAX); o }).join().ok())
}
/// The random elements of an output: alpha, beta, delta and, of a combined ciphertext, the nonce.
fn published(op: usize, b: &[u8]) -> Option<Vec<(&'static str, Vec<u8>)>> {
    use ark_serialize::CanonicalDeserialize;
    let (ct, nonce) = if op == 1 || op == 2 { let p = split(b)?; (p.ct, Some(p.msg.get(..12)?.to_vec())) } else { (b.to_vec(), None) };
    let c = mc::guarded(|| zkenc_core::Ciphertext::<ark_bn254::Bn254>::deserialize_compressed(&ct[..]).ok()).ok()??; let k = &c.encap_key;
    let mut v = vec![("alpha", le(&k.alpha_g1.dlog)), ("beta", le(&k.beta_g2.dlog)), ("delta", le(&k.delta_g2.dlog))]; v.extend(nonce.map(|n| ("nonce", n))); Some(v)
}
pub fn c04() {
    let ks = cases(); let ops = ["encap", "encrypt", "encrypt without public inputs", "bindings"];
    // (random part of the output, key if any)
    let run = |op: usize, k: &Case, tag: &str, dir: &str| -> Result<(Vec<u8>, Vec<u8>), String> {
        let p = |n: &str| format!("{}/{}", dir, n); let _ = std::fs::remove_file(p("o")); let _ = std::fs::remove_file(p("k")); let _ = tag;
        let r = match op { 0 => cli_encap(&p("c.r1cs"), &p("c.sym"), &p("in.json"), &p("o"), &p("k")), 1 | 2 => cli_encrypt(&p("c.r1cs"), &p("c.sym"), &p("in.json"), &p("m"), &p("o"), op == 1), _ => js_encap(&k.m.bytes(), &wtns(&k.a[0][..=k.np()])).map(|r| r.map(|(c, q)| { std::fs::write(p("o"), c).unwrap(); std::fs::write(p("k"), q).unwrap(); })) };
        match r { Ok(Ok(())) => Ok((std::fs::read(p("o")).unwrap_or_default(), std::fs::read(p("k")).unwrap_or_default())), Ok(Err(e)) | Err(e) => Err(e) }
    };
    explore("entropy-bytes", "every bit of entropy a call draws inverted, one at a time: each published random element depends on at least 254 bits of it, the nonce on 96 and in every bit (first call of a thread, without rejected samples)", 0, |cx| {
        let op = cx.choose(4); let k = cx.pick(&ks).clone(); let block = cx.choose(tier(2, 8)) as u64; let f = files(&k); f.d.put("m", b"message"); let dir = f.d.0.clone();
        // an entropy stream without rejected samples, whose bytes rightly do not matter
        let Some((_, seed)) = (block * 48 + 1..block * 48 + 49).filter_map(|s| drawn(s, u64::MAX, None, || run(op, &k, "", &dir)).map(|x| (x.1, s))).min() else { return cx.violation("entropy:refused", ops[op].into()) };
        let Some((Ok(base), n, calls)) = drawn(seed, u64::MAX, None, || run(op, &k, "", &dir)) else { return cx.violation("entropy:refused", format!("{} of {} fails under good entropy", ops[op], k.name)) };
        cx.check(n >= 32, "entropy:too-little", || format!("{} draws {} bytes of entropy", ops[op], n)); cx.state(&base); cx.op(); cx.sample(|| format!("{} of {}: {} bytes in {} draws", ops[op], k.name, n, calls));
        match drawn(seed, u64::MAX, None, || run(op, &k, "", &dir)) { Some((Ok(x), ..)) => { cx.check(x == base, "entropy:other-source", || format!("{}: same entropy, another result", ops[op])); } _ => cx.violation("entropy:refused", ops[op].into()) }
        let Some(b) = published(op, &base.0) else { return cx.violation("entropy:layout", ops[op].into()) }; let mut hits = vec![0u64; b.len()]; let mut nonce = vec![0u8; 12]; let bits = n <= 256;
        for p in 0..if bits { n * 8 } else { n } { match drawn(seed, u64::MAX, Some(if bits { (p / 8, 1 << (p % 8)) } else { (p, 0xff) }), || run(op, &k, "", &dir)) {
                Some((Ok(x), ..)) => { let Some(y) = published(op, &x.0) else { return cx.violation("entropy:layout", ops[op].into()) }; for (h, (u, v)) in hits.iter_mut().zip(b.iter().zip(&y)) { *h += (u.1 != v.1) as u64; } if let (Some(u), Some(v)) = (b.get(3), y.get(3)) { for i in 0..12 { nonce[i] |= u.1.get(i).unwrap_or(&0) ^ v.1.get(i).unwrap_or(&0); } } cx.state(&x); }
                r => cx.violation("entropy:refused", format!("{}: {:?}", ops[op], r.map(|x| x.0.err()))) } cx.op(); cx.traced(); }
        for (h, (name, _)) in hits.iter().zip(&b) { let want = match (bits, *name) { (true, "nonce") => 96, (true, _) => 254, (_, "nonce") => 12, _ => 32 }; cx.check(*h >= want, "entropy:ignored", || format!("{} of {}: of {} bytes of entropy only {} {} affect the {}", ops[op], k.name, n, h, if bits { "bits" } else { "bytes" }, name)); }
        if b.len() == 4 { cx.check(nonce.iter().all(|x| *x == 255), "entropy:fixed-nonce-bit", || format!("{} of {}: nonce bits that ever change: {:02x?}", ops[op], k.name, nonce)); }
        cx.outcome(ops[op]);
    });
    explore("failure", "the entropy source failing at every draw: the call fails and leaves no ciphertext", 0, |cx| {
        let op = cx.choose(4); let k = cx.pick(&ks).clone(); let f = files(&k); f.d.put("m", b"message"); let dir = f.d.0.clone();
        let Some((Ok(_), _, calls)) = drawn(1, u64::MAX, None, || run(op, &k, "", &dir)) else { return cx.violation("entropy:refused", ops[op].into()) };
        for at in 0..calls { let r = drawn(1, at, None, || run(op, &k, "", &dir)); cx.op(); cx.traced(); cx.state(&(op, k.name, at));
            match r { Some((Ok(_), ..)) => cx.violation("entropy:failure-ignored", format!("{} of {} succeeds although draw {} of {} fails", ops[op], k.name, at, calls)), _ => { cx.outcome("failed"); cx.check(f.d.get("o").is_none(), "entropy:failure-output", || format!("{}: a ciphertext was written although draw {} failed", ops[op], at)); } } }
    });
    explore("history", "histories of 24 calls on identical inputs, on one thread and on fresh ones, mixing operations: no ciphertext, key, nonce or published element repeats", 0, |cx| {
        let k = cx.pick(&ks).clone(); let pattern = cx.choose(6); let fresh = cx.flag(); let f = files(&k); f.d.put("m", b"message"); let dir = f.d.0.clone(); let n = tier(24u64, 200);
        let op = |i: u64| -> usize { match pattern { 0..=3 => pattern, 4 => (i % 4) as usize, _ => [0, 0, 1, 3, 3, 2][i as usize % 6] } };
        let rs: Vec<(usize, Result<(Vec<u8>, Vec<u8>), String>)> = if fresh { (0..n).filter_map(|i| drawn(100 + i, u64::MAX, None, || (op(i), run(op(i), &k, "", &dir))).map(|x| x.0)).collect() } else { drawn(5, u64::MAX, None, || (0..n).map(|i| (op(i), run(op(i), &k, "", &dir))).collect()).map(|x: (Vec<_>, u64, u64)| x.0).unwrap_or_default() };
        cx.ops(n); cx.traced(); if rs.len() as u64 != n { return cx.violation("entropy:refused", "a call failed".into()); }
        let mut seen: HashSet<(&str, Vec<u8>)> = HashSet::new();
        for (o, r) in rs { let Ok((b, key)) = r else { return cx.violation("entropy:refused", format!("{}: {:?}", ops[o], r)) };
            let (ct, gcm) = if o == 1 || o == 2 { let Some(p) = split(&b) else { return cx.violation("entropy:layout", ops[o].into()) }; (p.ct, p.msg) } else { (b, vec![]) };
            for (n, x) in [("ciphertext", ct.clone()), ("key", key), ("message", gcm.clone()), ("nonce", gcm.get(..12).unwrap_or(&[]).to_vec())] { if !x.is_empty() { cx.check(seen.insert((n, x)), "entropy:repeated", || format!("{}: a {} repeats within the history", ops[o], n)); } }
            use ark_serialize::CanonicalDeserialize; if let Ok(Ok(c)) = mc::guarded(|| zkenc_core::Ciphertext::<ark_bn254::Bn254>::deserialize_compressed(&ct[..])) { for (n, x) in [("alpha", le(&c.encap_key.alpha_g1.dlog)), ("beta", le(&c.encap_key.beta_g2.dlog)), ("delta", le(&c.encap_key.delta_g2.dlog))] { cx.check(seen.insert(("element", x)), "entropy:repeated", || format!("{}: {} repeats within the history (or equals another secret)", ops[o], n)); } } }
        cx.state(&seen.len()); cx.outcome("history");
    });
}
static CONSOLE: Mutex<()> = Mutex::new(());
/// Everything the process writes to its standard output and error meanwhile.
fn console<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::{Read, Seek, Write}; use std::os::fd::FromRawFd;
    let _g = CONSOLE.lock().unwrap();
    unsafe {
        let fd = libc::memfd_create(c"console".as_ptr(), 0); let (o, e) = (libc::dup(1), libc::dup(2)); let _ = std::io::stdout().flush(); libc::dup2(fd, 1); libc::dup2(fd, 2);
        let r = f(); let _ = std::io::stdout().flush(); libc::dup2(o, 1); libc::dup2(e, 2); libc::close(o); libc::close(e);
        let mut file = std::fs::File::from_raw_fd(fd); let mut v = vec![]; let _ = file.rewind(); let _ = file.read_to_end(&mut v); (r, v)
    }
}
pub fn c05() {
    let ks = cases(); let secret = b"Zq7#Kx-vault~9531/wyrm|plinth?JUMBO";
    explore("console-and-files", "every command and both binding calls on every case, messages of several lengths: console output and every file but the requested key or message searched for the key, the message and every sampled secret, raw, hexadecimal, decimal and base64", 0, |cx| {
        let k = cx.pick(&ks).clone(); let op = cx.choose(3); let inc = cx.flag(); let len = *cx.pick(&[secret.len(), 12, 0, 1]); let msg = &secret[..len]; let f = files(&k); let m = f.d.put("m", msg); secrets();
        let mut pubs: Vec<(String, Vec<u8>)> = vec![]; let key;
        match op {
            0 => { let (r, out) = told(console(|| cli_encap(&f.c, &f.s, &f.i, &f.d.p("ct"), &f.d.p("key")))); if r != Ok(Ok(())) { return cx.violation("leak:refused", format!("encap {}: {:?}", k.name, r)); } pubs.push(("console of encap".into(), out)); pubs.push(("ciphertext".into(), f.d.get("ct").unwrap_or_default())); key = f.d.get("key").unwrap_or_default();
                let (r, out) = told(console(|| cli_decap(&f.c, &f.w, &f.d.p("ct"), &f.d.p("key2")))); if r != Ok(Ok(())) { return cx.violation("leak:refused", format!("decap {}: {:?}", k.name, r)); } pubs.push(("console of decap".into(), out));
                let bad = wtns(&{ let mut a = k.a[0].clone(); let l = a.len() - 1; a[l] += Fr::one(); a }); let w = f.d.put("bad", bad); let (_, out) = told(console(|| cli_decap(&f.c, &w, &f.d.p("ct"), &f.d.p("key3")))); pubs.push(("console of a failing decap".into(), out)); let mut t = f.d.get("ct").unwrap_or_default(); t.truncate(t.len() / 2); let t = f.d.put("bad", t); let (_, out) = told(console(|| cli_decap(&f.c, &f.w, &t, &f.d.p("key3")))); pubs.push(("console of a decap of half a ciphertext".into(), out)); let (_, out) = told(console(|| cli_decap(&f.c, &f.w, &f.d.p("ct"), &f.d.p("none/key")))); pubs.push(("console of a decap that cannot write".into(), out)); let (_, out) = told(console(|| cli_encap(&f.c, &f.s, &f.i, &f.d.p("ct4"), &f.d.p("none/key")))); let _ = std::fs::remove_file(f.d.p("ct4")); pubs.push(("console of an encap that cannot write".into(), out)); cx.ops(6); }
            1 => { let (r, out) = told(console(|| cli_encrypt(&f.c, &f.s, &f.i, &m, &f.d.p("o"), inc))); if r != Ok(Ok(())) { return cx.violation("leak:refused", format!("encrypt {}: {:?}", k.name, r)); } pubs.push(("console of encrypt".into(), out)); let b = f.d.get("o").unwrap_or_default(); pubs.push(("combined ciphertext".into(), b.clone()));
                let Some(p) = split(&b) else { return cx.violation("leak:layout", k.name.into()) }; key = js_decap(&k.m.bytes(), &wtns(&k.a[0]), &p.ct).ok().and_then(|r| r.ok()).unwrap_or_default();
                let (r, out) = told(console(|| cli_decrypt(&f.c, &f.w, &f.d.p("o"), &f.d.p("plain")))); if r != Ok(Ok(())) { return cx.violation("leak:refused", format!("decrypt {}: {:?}", k.name, r)); } pubs.push(("console of decrypt".into(), out));
                let mut t = b; let l = t.len() - 1; t[l] ^= 1; let t = f.d.put("bad", t); let (_, out) = told(console(|| cli_decrypt(&f.c, &f.w, &t, &f.d.p("plain2")))); pubs.push(("console of a failing decrypt".into(), out)); let (_, out) = told(console(|| cli_decrypt(&f.c, &f.w, &f.d.p("o"), &f.d.p("none/plain")))); pubs.push(("console of a decrypt that cannot write".into(), out)); let (_, out) = told(console(|| cli_encrypt(&f.c, &f.s, &f.i, &m, &f.d.p("none/o"), inc))); pubs.push(("console of an encrypt that cannot write".into(), out)); cx.ops(5); }
            _ => { let w = wtns(&k.a[0][..=k.np()]); let (r, out) = console(|| js_encap(&k.m.bytes(), &w)); let Ok(Ok((ct, q))) = r else { return cx.violation("leak:refused", format!("bindings {}: {:?}", k.name, r)) }; pubs.push(("console of the bindings' encap".into(), out)); key = q; let (_, out) = console(|| js_decap(&k.m.bytes(), &wtns(&k.a[0]), &ct)); pubs.push(("console of the bindings' decap".into(), out)); pubs.push(("ciphertext".into(), ct)); cx.ops(2); }
        }
        cx.traced(); let sec = secrets(); cx.check(key.len() == 32, "leak:key-length", || format!("{} bytes", key.len()));
        let asked = ["key", "key2", "plain", "m", "bad"]; for (n, b) in f.d.snapshot() { if !asked.contains(&n.as_str()) { pubs.push((format!("file {}", n), b.unwrap_or_default())); } }
        for (n, b) in &pubs { cx.state(&(n, b.len()));
            let text = n.starts_with("console"); let look: fn(&[u8], &[u8]) -> Option<&'static str> = if text { leaks_text } else { leaks };
            if let Some(h) = look(b, &key) { cx.violation("leak:key", format!("{} ({} of {}): bytes of the key in {}", h, n, k.name, n)); }
            if len >= 12 { if let Some(h) = look(b, msg) { cx.violation("leak:message", format!("{} ({} of {}): the message in {}", h, n, k.name, n)); } }
            for s in &sec { let x: Vec<u8> = s.iter().flat_map(|l| l.to_le_bytes()).collect(); let mut y = x.clone(); y.reverse(); let d = dec(&fr(&x)); let bad = look(b, &x).or_else(|| look(b, &y)).or(if crate::core::contains(b, d.as_bytes()) { Some("decimal") } else { None }); if let Some(h) = bad { cx.violation("leak:secret", format!("{}: a sampled secret exponent in {} of {}", h, n, k.name)); } } }
        if op < 2 { cx.check(sec.len() >= 5, "leak:secrets-unseen", || format!("{} samples seen", sec.len())); }
        let want: &[&str] = match op { 0 => &["bad", "c.r1cs", "c.sym", "ct", "in.json", "key", "key2", "m", "w.wtns"], 1 => &["bad", "c.r1cs", "c.sym", "in.json", "m", "o", "plain", "w.wtns"], _ => &["c.r1cs", "c.sym", "in.json", "m", "w.wtns"] }; let got = f.d.names(); cx.check(got == want, "leak:extra-file", || format!("{:?}", got));
        cx.outcome("searched"); cx.sample(|| format!("{} {}: {:?}", k.name, op, pubs.iter().map(|(n, b)| (n.clone(), b.len())).collect::<Vec<_>>()));
    });
}
pub fn c07() {
    let ks = cases();
    explore("text-files", "every prefix of a symbol file and an input file, and every byte of either replaced by 14 values, through encap: no crash; a cut input file is refused; success records exactly the inputs", 0, |cx| {
        let k = &ks[cx.choose(2)]; let which = cx.flag(); let f = files(k); let t = if which { k.json().into_bytes() } else { sym(&k.m).into_bytes() }; let i = cx.choose(t.len()); let v = cx.choose(15); let mut b = t.clone(); if v == 0 { b.truncate(i) } else { b[i] = *[b',', b'\n', b'\r', b' ', b'0', b'9', b'-', b'"', b'{', b'[', b'}', 0xff, 0, b'\\'].get(v - 1).unwrap(); }
        f.d.put(if which { "in.json" } else { "c.sym" }, &b); cx.state(&(which, &b)); cx.traced(); cx.op();
        let r = cli_encap(&f.c, &f.s, &f.i, &f.d.p("ct"), &f.d.p("k")); let what = || format!("{} {} byte {} variant {}: {:?}", k.name, if which { "inputs" } else { "symbols" }, i, v, String::from_utf8_lossy(&b));
        match r { Err(e) => cx.violation("text:panic", format!("{}: {}", what(), e)), Ok(Err(_)) => { cx.check(b != t, "text:refused", || what()); cx.check(f.d.get("ct").is_none(), "text:output-on-error", || what()); cx.outcome("refused") }
            Ok(Ok(())) => { let rec = f.d.get("ct").and_then(|c| recorded(&c)); cx.check(!(which && v == 0), "text:accepted:cut", || what()); cx.check(rec.map_or(false, |r| r.len() == k.np() && (which || r.iter().all(|x| k.publics().contains(x)))), "text:wrong", || what()); cx.outcome("read") } }
    });
    explore("deep-json", "input files of deep nesting, long arrays, huge numbers and duplicate keys", 0, |cx| {
        let k = &ks[0]; let f = files(k); let n = *cx.pick(&[1usize, 100, 127, 128, 129, 1000, 20_000]); let t = match cx.choose(6) { 0 => format!("{{\"p1\":{}1{}}}", "[".repeat(n), "]".repeat(n)), 1 => format!("{{\"p1\":{}", "[".repeat(n)), 2 => format!("{{\"p1\":\"{}\"}}", "9".repeat(n)), 3 => format!("{{\"p1\":1,\"x\":[{}1]}}", "1,".repeat(n)), 4 => format!("{{\"p1\":{}}}", "9".repeat(n)), _ => format!("{}{}", "{\"p1\":".repeat(n), "}".repeat(n)) };
        f.d.put("in.json", &t); cx.state(&t); cx.traced(); cx.op(); let (r, mem) = mc::alloc::peak(|| cli_encap(&f.c, &f.s, &f.i, &f.d.p("ct"), &f.d.p("k")));
        if mem > (4 << 20) + 2000 * t.len() as u64 { cx.violation("text:memory", format!("{} bytes for a file of {}", mem, t.len())); }
        match r { Err(e) => cx.violation("text:panic", format!("{}...: {}", &t[..t.len().min(40)], e)), Ok(Err(_)) => cx.outcome("refused"), Ok(Ok(())) => cx.outcome("read") }
    });
    explore("ciphertext-files", "every prefix of a ciphertext and of combined ciphertexts, every length field at boundary values, every byte set to 5 values, through decap and decrypt: no crash, cut files refused, nothing written on error", 0, |cx| {
        let k = &ks[cx.choose(tier(1, 3))]; let op = cx.choose(3); let f = files(k); f.d.put("m", b"some message"); let ok = if op == 0 { cli_encap(&f.c, &f.s, &f.i, &f.d.p("x"), &f.d.p("k")) } else { cli_encrypt(&f.c, &f.s, &f.i, &f.d.p("m"), &f.d.p("x"), op == 1) }; let b0 = f.d.get("x").unwrap_or_default(); if ok != Ok(Ok(())) || b0.is_empty() { return cx.violation("ciphertext-file:setup", format!("{:?}", ok)); }
        // all faults at this position
        let i = cx.choose(b0.len().min(2000)); let lens = [0u32, 1, 4, 0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_fffc, 0xffff_ffff, b0.len() as u32, b0.len() as u32 - 5];
        for v in 0..6 + lens.len() { let mut b = b0.clone(); let mut cut = false; match v { 0 => { b.truncate(i); cut = true } 1..=5 => b[i] = [0, 1, 0x7f, 0xff, b[i] ^ 1][v - 1], _ => { if op == 0 || i + 4 > b.len() { continue; } let be = lens[v - 6].to_be_bytes(); b[i..i + 4].copy_from_slice(&be) } }
            if b == b0 { continue; } let x = f.d.put("x", &b); let _ = std::fs::remove_file(f.d.p("out")); cx.op(); cx.traced(); cx.state(&(op, v, i, k.name));
            let (r, mem) = mc::alloc::peak(|| if op == 0 { cli_decap(&f.c, &f.w, &x, &f.d.p("out")) } else { cli_decrypt(&f.c, &f.w, &x, &f.d.p("out")) }); let what = || format!("{} {} position {} variant {}", k.name, ["decap", "decrypt", "decrypt (no public inputs)"][op], i, v);
            if mem > (2 << 20) + 400 * b.len() as u64 { cx.violation("ciphertext-file:memory", format!("{}: {} bytes", what(), mem)); }
            match r { Err(e) => cx.violation("ciphertext-file:panic", format!("{}: {}", what(), e)), Ok(Ok(())) => { cx.check(!cut, "ciphertext-file:accepted:cut", || what()); cx.outcome("read") } Ok(Err(_)) => { cx.check(f.d.get("out").is_none(), "ciphertext-file:output-on-error", || what()); cx.outcome("refused") } } }
    });
}
pub fn message(len: usize) -> Vec<u8> { (0..len).map(|i| (i as u8).wrapping_mul(37) ^ (i >> 8) as u8 ^ 0xa5).collect() }
pub fn c12() {
    let ks = cases(); let lens: Vec<usize> = { let mut v: Vec<usize> = (0..=tier(34, 130)).collect(); v.extend([47, 48, 49, 63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097, 65_535, 65_536, 70_001]); v };
    explore("round-trip", "every case x message lengths 0..34 and around block sizes up to 70001 x embedded or not x every satisfying witness: documented layout, exact embedded bytes, message recovered by the command, and by the bindings' key with the symmetric helper", 0, |cx| {
        let k = cx.pick(&ks).clone(); let n = *cx.pick(&lens); let inc = cx.flag(); let pretty = cx.choose(3); let msg = message(n); let f = files(&k);
        let json = match pretty { 0 => k.json(), 1 => k.json().replace(':', " :\t").replace(',', " ,\n  ") + "\n\n", _ => k.json().replace("{", "{ \"\\u00e9t\\u00e9\" : [1, [2]], \"測試\": \"0\", ") }; f.d.put("in.json", &json); let m = f.d.put("m", &msg);
        cx.state(&(k.name, n, inc, pretty)); cx.sample(|| format!("{} bytes, {}, embedded {}", n, k.name, inc)); let what = || format!("{}: {} bytes, embedded {}, inputs {:?}", k.name, n, inc, json);
        let old = f.d.put("o", vec![9u8; 100_000]); if let e @ (Err(_) | Ok(Err(_))) = cli_encrypt(&f.c, &f.s, &f.i, &m, &old, inc) { return cx.violation("encrypt:failed", format!("{}: {:?}", what(), e)); } cx.op();
        let b = f.d.get("o").unwrap_or_default(); let Some(p) = split(&b) else { return cx.violation("layout:short", what()) };
        if !cx.check(p.flag == inc as u8 && b == join(p.flag, &p.ct, p.json.as_deref(), &p.msg) && p.msg.len() == 28 + n, "layout:parts", || format!("{}: flag {}, lengths {} {:?} {}", what(), p.flag, p.ct.len(), p.json.as_ref().map(|j| j.len()), p.msg.len())) { return; }
        cx.check(p.json.as_deref() == if inc { Some(json.as_bytes()) } else { None }, "layout:public-inputs", || format!("{}: embeds {:?}", what(), p.json.as_ref().map(|j| String::from_utf8_lossy(j).to_string())));
        cx.check(recorded(&p.ct).as_deref() == Some(k.publics()), "layout:ciphertext", || what());
        for a in &k.a { let w = f.d.put("w.wtns", wtns(a)); let o = f.d.put("out", vec![1u8; if n % 2 == 0 { 90_000 } else { 1 }]);
            let r = cli_decrypt(&f.c, &w, &old, &o); cx.op(); cx.traced(); cx.check(r == Ok(Ok(())) && f.d.get("out").as_ref() == Some(&msg), "decrypt:cli", || format!("{}: {:?}", what(), r)); cx.outcome("command line");
            let Ok(Ok(key)) = js_decap(&k.m.bytes(), &wtns(a), &p.ct) else { return cx.violation("decrypt:bindings", what()) };
            let r = mc::guarded(|| zkenc_cli::crypto::decrypt_gcm(&key, &p.msg).ok()); cx.op(); cx.traced(); cx.check(r == Ok(Some(msg.clone())), "decrypt:bindings", || what()); cx.outcome("bindings"); }
    });
    explore("bindings-to-cli", "combined ciphertexts put together from the bindings' encapsulation by the documented layout, decrypted by the command", 0, |cx| {
        let k = cx.pick(&ks).clone(); let n = *cx.pick(&lens); let inc = cx.flag(); let msg = message(n); let f = files(&k);
        let Ok(Ok((ct, key))) = js_encap(&k.m.bytes(), &wtns(&k.a[0][..=k.np()])) else { return cx.violation("encrypt:bindings", k.name.into()) }; let Ok(Some(g)) = mc::guarded(|| zkenc_cli::crypto::encrypt_gcm(&key, &msg).ok()) else { return cx.violation("encrypt:gcm", k.name.into()) };
        let jl = cx.choose(6); if jl > 2 && n > 4 { return; } let json = match jl { 0 => "{\"p1\":\"25\"}".to_string(), 1 => String::new(), j => format!("{{\"big\":\"{}\"}}", "7".repeat([3000, 65_526, 70_000, 1 << 20][j - 2])) };
        let x = f.d.put("x", join(inc as u8, &ct, if inc { Some(json.as_bytes()) } else { None }, &g)); cx.state(&(k.name, n, inc, jl));
        for a in &k.a { let w = f.d.put("w.wtns", wtns(a)); let r = cli_decrypt(&f.c, &w, &x, &f.d.p("out")); cx.op(); cx.traced(); cx.check(r == Ok(Ok(())) && f.d.get("out").as_ref() == Some(&msg), "decrypt:cli", || format!("{} {} bytes, embedded {}, json {}: {:?}", k.name, n, inc, jl, r)); cx.outcome("command line"); }
    });
    explore("histories", "sequences of three encryptions into the same file with different lengths and settings, decrypted after each", 0, |cx| {
        let k = &ks[cx.choose(2)]; let f = files(k);
        for step in 0..3 { let n = *cx.pick(&[0usize, 5, 40]); let inc = cx.flag(); let msg = message(n + step); let m = f.d.put("m", &msg);
            if cli_encrypt(&f.c, &f.s, &f.i, &m, &f.d.p("o"), inc) != Ok(Ok(())) { return cx.violation("encrypt:failed", k.name.into()); } let r = cli_decrypt(&f.c, &f.w, &f.d.p("o"), &f.d.p("out")); cx.ops(2); cx.traced(); cx.state(&(k.name, step, n, inc));
            if !cx.check(r == Ok(Ok(())) && f.d.get("out") == Some(msg), "decrypt:history", || format!("{} step {}: {:?}", k.name, step, r)) { return; } cx.outcome("recovered"); }
    });
    explore("key-files", "encap into existing files of other lengths, decap with every satisfying witness: the key files agree", 0, |cx| {
        let k = cx.pick(&ks).clone(); let f = files(&k); let l = *cx.pick(&[0usize, 1, 31, 33, 5000]); let (ct, key) = if cx.flag() { (f.d.put("ct", vec![7u8; l]), f.d.put("k", vec![7u8; l])) } else { (f.d.p("ct"), f.d.p("k")) }; cx.state(&(k.name, l));
        if cli_encap(&f.c, &f.s, &f.i, &ct, &key) != Ok(Ok(())) { return cx.violation("encap:failed", k.name.into()); } let kb = f.d.get("k").unwrap_or_default(); cx.check(kb.len() == 32, "encap:key", || format!("key file of {} bytes", kb.len()));
        for a in &k.a { let w = f.d.put("w.wtns", wtns(a)); let out = f.d.put("k2", vec![3u8; l]); let r = cli_decap(&f.c, &w, &ct, &out); cx.op(); cx.traced(); cx.check(r == Ok(Ok(())) && f.d.get("k2") == Some(kb.clone()), "decap:key", || format!("{}: {:?}", k.name, r)); cx.outcome("recovered"); }
    });
}
pub fn c13() {
    let ks = cases();
    let make = |k: &Case, n: usize, inc: bool, f: &Files| -> Option<Vec<u8>> { let m = f.d.put("m", message(n)); if cli_encrypt(&f.c, &f.s, &f.i, &m, &f.d.p("o"), inc) != Ok(Ok(())) { return None; } let _ = k; f.d.get("o") };
    fn judge(cx: &mut Ctx, f: &Files, b: &[u8], ok: &[Vec<u8>], what: impl Fn() -> String) {
        let x = f.d.put("x", b); let sentinel = b.len() % 2 == 0; let _ = std::fs::remove_file(f.d.p("out")); if sentinel { f.d.put("out", b"keep"); }
        let r = cli_decrypt(&f.c, &f.w, &x, &f.d.p("out")); cx.op(); cx.traced(); let got = f.d.get("out");
        match r { Err(e) => cx.violation("tamper:panic", format!("{}: {}", what(), e)), Ok(Ok(())) => { cx.check(got.as_ref().map_or(false, |g| ok.contains(g)), "tamper:plaintext", || format!("{}: decrypted to {:02x?}", what(), got)); cx.outcome("original") } Ok(Err(_)) => { cx.check(got.as_deref() == if sentinel { Some(b"keep") } else { None }, "tamper:output-on-error", || format!("{}: output {:02x?}", what(), got)); cx.outcome("refused") } }
    }
    explore("bits", "every bit of combined ciphertexts flipped (3 cases, 3 message lengths, embedded or not)", 0, |cx| {
        let k = &ks[cx.choose(3)]; let n = *cx.pick(&[5usize, 0, 33]); let inc = cx.flag(); let f = files(k); let Some(b) = make(k, n, inc, &f) else { return cx.violation("tamper:setup", k.name.into()) };
        let chunk = cx.choose(40); let per = b.len().div_ceil(40);
        for i in chunk * per..((chunk + 1) * per).min(b.len()) { for bit in 0..8 { let mut c = b.clone(); c[i] ^= 1 << bit; cx.state(&(k.name, n, inc, i, bit)); judge(cx, &f, &c, &[message(n)], || format!("{} {} bytes embedded {}: bit {} of byte {} of {}", k.name, n, inc, bit, i, b.len())); } }
    });
    explore("cuts-and-extensions", "every truncation, and extensions by 1..32 bytes of several kinds, at the end and inside each part with its length field adjusted", 0, |cx| {
        let k = &ks[cx.choose(2)]; let n = *cx.pick(&[5usize, 0, 16]); let inc = cx.flag(); let f = files(k); let Some(b) = make(k, n, inc, &f) else { return cx.violation("tamper:setup", k.name.into()) }; let p = split(&b).unwrap_or(Parts { flag: 9, ct: vec![], json: None, msg: vec![] });
        match cx.choose(4) {
            0 => { let chunk = cx.choose(20); let per = b.len().div_ceil(20); for i in chunk * per..((chunk + 1) * per).min(b.len()) { cx.state(&(k.name, n, inc, i)); judge(cx, &f, &b[..i], &[], || format!("{} {} bytes embedded {}: cut to {} of {}", k.name, n, inc, i, b.len())); } }
            1 => for l in 1..=32usize { for kind in 0..3 { let mut c = b.clone(); let add: Vec<u8> = match kind { 0 => vec![0; l], 1 => vec![0xff; l], _ => b[b.len() - l.min(b.len())..].to_vec() }; c.extend(add); cx.state(&(k.name, n, inc, l, kind)); judge(cx, &f, &c, &[], || format!("{}: {} bytes appended (kind {})", k.name, l, kind)); } },
            2 => for part in 0..3 { for l in [1usize, 2, 12, 16, 28] { for grow in [true, false] { for front in [true, false] { let (mut ct, mut js, mut ms) = (p.ct.clone(), p.json.clone(), p.msg.clone()); let empty = &mut vec![]; let t: &mut Vec<u8> = match part { 0 => &mut ct, 1 => js.as_mut().unwrap_or(empty), _ => &mut ms }; if grow { if front { t.splice(0..0, vec![0u8; l]); } else { t.extend(vec![0u8; l]); } } else { if t.len() < l { continue; } if front { t.drain(..l); } else { let x = t.len() - l; t.truncate(x); } }
                let c = join(p.flag, &ct, js.as_deref(), &ms); if c == b { continue; } cx.state(&(k.name, n, inc, part, l, grow, front)); judge(cx, &f, &c, &[message(n)], || format!("{}: part {} {} by {} at the {}", k.name, part, if grow { "grown" } else { "shrunk" }, l, if front { "front" } else { "end" })); } } } },
            _ => for flag in 0..=255u8 { for own in [true, false] { let mut c = b.clone(); c[0] = flag; if !own { c = join(flag, &p.ct, if flag == 1 { Some(b"{}") } else { None }, &p.msg); } cx.state(&(k.name, n, inc, flag, own)); judge(cx, &f, &c, &[message(n)], || format!("{}: flag {}, embedded {}", k.name, flag, inc)); } },
        }
    });
    explore("length-fields", "both length fields at every boundary value and every value that moves the boundary by up to 40 bytes", 0, |cx| {
        let k = &ks[cx.choose(2)]; let inc = cx.flag(); let n = *cx.pick(&[5usize, 40]); let f = files(k); let Some(b) = make(k, n, inc, &f) else { return cx.violation("tamper:setup", k.name.into()) }; let Some(p) = split(&b) else { return cx.violation("tamper:setup", k.name.into()) };
        let at = if inc && cx.flag() { 5 + p.ct.len() } else { 1 }; let orig = u32::from_be_bytes(b[at..at + 4].try_into().unwrap());
        let mut vs: Vec<u32> = (0..=40).flat_map(|d| [orig.wrapping_add(d), orig.wrapping_sub(d)]).collect(); vs.extend([0, 1, 4, 5, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 4, u32::MAX - 8, b.len() as u32, b.len() as u32 - 5, b.len() as u32 - 9, orig.swap_bytes()]);
        for v in vs { if v == orig { continue; } let mut c = b.clone(); c[at..at + 4].copy_from_slice(&v.to_be_bytes()); cx.state(&(k.name, inc, n, at, v)); judge(cx, &f, &c, &[message(n)], || format!("{} embedded {}: length at {} := {} (was {})", k.name, inc, at, v, orig)); }
    });
    explore("splices", "every mixture of the parts of two combined ciphertexts (same circuit and inputs, other message or lengths), and mixtures within the encrypted message", 0, |cx| {
        let k = &ks[cx.choose(3)]; let f = files(k); let (n1, n2) = *cx.pick(&[(5usize, 6usize), (16, 16), (0, 3)]); let (i1, i2) = (cx.flag(), cx.flag());
        let (Some(a), Some(b)) = (make(k, n1, i1, &f), make(k, n2 + 100, i2, &f)) else { return cx.violation("tamper:setup", k.name.into()) }; let (Some(pa), Some(pb)) = (split(&a), split(&b)) else { return cx.violation("tamper:setup", k.name.into()) };
        let msgs = [message(n1), message(n2 + 100)];
        for mix in 0..16usize { let s = |bit: usize| if mix >> bit & 1 == 0 { &pa } else { &pb }; let fl = s(0).flag; let json = if fl == 1 { Some(s(2).json.clone().unwrap_or(b"{}".to_vec())) } else { None }; let c = join(fl, &s(1).ct, json.as_deref(), &s(3).msg); let same = (mix >> 1 & 1) == (mix >> 3 & 1); let ok = if same { vec![msgs[mix >> 3 & 1].clone()] } else { vec![] }; cx.state(&(k.name, n1, i1, i2, mix)); judge(cx, &f, &c, &ok, || format!("{}: mixture {:04b}", k.name, mix)); }
        for cut in [12usize, 1, 11, 13, pa.msg.len() - 16, pa.msg.len() - 1] { if cut >= pa.msg.len() || cut >= pb.msg.len() { continue; } for (x, y, ct, own) in [(&pa, &pb, &pa.ct, 0), (&pb, &pa, &pa.ct, 0), (&pa, &pb, &pb.ct, 1)] { let mut g = x.msg[..cut].to_vec(); g.extend(&y.msg[cut..]); let c = join(0, ct, None, &g); cx.state(&(k.name, n1, cut)); judge(cx, &f, &c, &msgs[own..own + 1], || format!("{}: message spliced at {}", k.name, cut)); } }
        for c in [join(0, &pa.ct, None, &[]), join(0, &pa.ct, None, &pa.msg[..12]), join(0, &pa.ct, None, &pa.msg[..28.min(pa.msg.len() - 1)]), join(0, &pa.msg, None, &pa.ct), [a.clone(), b.clone()].concat()] { judge(cx, &f, &c, &[], || format!("{}: rearranged", k.name)); }
    });
    explore("gcm", "symmetric authenticated ciphertexts: every bit, every truncation, extensions, exchanged blocks, exchanged nonces and tags", 0, |cx| {
        let n = *cx.pick(&[0usize, 1, 15, 16, 17, 32, 48, 100]); let key = [0x42u8; 32]; let msg = message(n); let enc = |m: &[u8]| mc::guarded(|| zkenc_cli::crypto::encrypt_gcm(&key, m).ok()).ok().flatten();
        let (Some(b), Some(o)) = (enc(&msg), enc(&message(n + 1)[1..])) else { return cx.violation("tamper:setup", "gcm".into()) }; let mut v: Vec<(String, Vec<u8>)> = vec![];
        for i in 0..b.len() * 8 { let mut c = b.clone(); c[i / 8] ^= 1 << (i % 8); v.push((format!("bit {}", i), c)); } for i in 0..b.len() { v.push((format!("cut to {}", i), b[..i].to_vec())); v.push((format!("cut front {}", i + 1), b[i + 1..].to_vec())); } for l in 1..=17 { v.push((format!("{} zeros", l), [b.clone(), vec![0; l]].concat())); v.push((format!("{} zeros first", l), [vec![0; l], b.clone()].concat())); }
        for cut in [12, b.len() - 16] { v.push((format!("spliced {}", cut), [&b[..cut], &o[cut..]].concat())); v.push((format!("spliced {}", cut), [&o[..cut], &b[cut..]].concat())); } if n >= 32 { let mut c = b.clone(); for i in 0..16 { c.swap(12 + i, 28 + i); } v.push(("blocks exchanged".into(), c)); } v.push(("twice".into(), [b.clone(), b.clone()].concat()));
        for (w, c) in v { cx.state(&(n, &w)); cx.op(); cx.traced(); if c == b { continue; } match mc::guarded(|| zkenc_cli::crypto::decrypt_gcm(&key, &c).ok()) { Err(e) => cx.violation("tamper:panic", format!("gcm {}: {}", w, e)), Ok(Some(m)) => { cx.check(m == msg, "tamper:plaintext", || format!("gcm of {} bytes, {}: decrypted to {:02x?}", n, w, m)); cx.outcome("original") } Ok(None) => cx.outcome("refused") } }
    });
}
pub fn c15() {
    let k = cases()[1].clone(); let other = Case { name: "other", m: net(0, 3, 2, vec![[one(4), one(5), one(1)]]), a: vec![vec![Fr::one(), Fr::from(6u64), Fr::from(8u64), Fr::from(9u64), Fr::from(2u64), Fr::from(3u64)]] };
    let ops: [(&str, &[&str], &[&str]); 4] = [("encap", &["c", "s", "i"], &["ct", "key"]), ("decap", &["c", "w", "ct"], &["key"]), ("encrypt", &["c", "s", "i", "m"], &["o"]), ("decrypt", &["c", "w", "x"], &["o"])];
    // ciphertexts for this circuit with these and with other public values
    let f = files(&k); f.d.put("m", b"the message"); let mut made = vec![];
    for (json, _) in [(k.json(), 0), (inputs(&[Fr::from(1u64), Fr::from(2u64)]), 1)] { f.d.put("in.json", &json); let a = cli_encap(&f.c, &f.s, &f.i, &f.d.p("ct"), &f.d.p("k")); let b = cli_encrypt(&f.c, &f.s, &f.i, &f.d.p("m"), &f.d.p("x"), true); made.push((a == Ok(Ok(())) && b == Ok(Ok(())), f.d.get("ct").unwrap_or_default(), f.d.get("k").unwrap_or_default(), f.d.get("x").unwrap_or_default())); }
    let states = ["good", "missing", "a directory", "empty", "garbage", "cut", "of another circuit or statement", "unsatisfying"];
    let outs = ["absent", "existing", "a directory", "in a missing directory", "on a full device"];
    explore("faults", "each command with every input good, missing, a directory, empty, garbage, cut or mismatched, and every output absent, existing, unwritable (up to 2 faults, thorough 3): success only with all inputs good and outputs written right, otherwise an error and outputs untouched; inputs never modified", tier(2, 3), |cx| {
        if !made.iter().all(|m| m.0) { return cx.violation("faults:setup", "the good case fails".into()); }
        let (name, ins, os) = ops[cx.choose(4)]; let d = Dir::new(); let st: Vec<usize> = ins.iter().map(|_| cx.dev(states.len())).collect(); let ot: Vec<usize> = os.iter().map(|_| cx.dev(outs.len())).collect();
        let body = |n: &str, s: usize| -> Option<Vec<u8>> { let g: Vec<u8> = match n { "c" => k.m.bytes(), "s" => sym(&k.m).into_bytes(), "i" => k.json().into_bytes(), "w" => wtns(&k.a[0]), "ct" => made[0].1.clone(), "x" => made[0].3.clone(), _ => b"the message".to_vec() };
            Some(match s { 0 => g, 3 => vec![], 4 => b"\x01garbage, \xff\xfe not a file of any kind\n\n{".to_vec(), 5 => match n { "s" => g[..11].to_vec(), _ => g[..g.len() - 1].to_vec() },
                6 => match n { "c" => other.m.bytes(), "s" => sym(&k.m).replace("main.p", "main.q").into_bytes(), "i" => k.json().replace("\"p", "\"r").into_bytes(), "w" => wtns(&other.a[0]), "ct" => made[1].1.clone(), "x" => made[1].3.clone(), _ => b"another".to_vec() },
                7 => match n { "w" => wtns(&{ let mut a = k.a[0].clone(); let l = a.len() - 1; a[l] += Fr::one(); a }), "i" => k.json().replace("p1", "p1 ").into_bytes(), _ => return None }, _ => return None }) };
        let mut faulty = false; let mut paths = vec![];
        for (n, s) in ins.iter().zip(&st) { let p = d.p(&format!("in-{}", n)); match s { 1 => faulty = true, 2 => { std::fs::create_dir(&p).unwrap(); faulty = true } _ => { let Some(b) = body(n, *s) else { return }; std::fs::write(&p, b).unwrap(); if *s != 0 && *n != "m" { faulty = true } } } paths.push(p); }
        let mut bad_out = false; let full = mc::Full::new(); let mut opaths = vec![];
        for (n, s) in os.iter().zip(&ot) { let p = d.p(&format!("out-{}", n)); opaths.push(match s { 0 => p, 1 => { std::fs::write(&p, vec![0x5au8; 70_000]).unwrap(); p } 2 => { std::fs::create_dir(&p).unwrap(); bad_out = true; p } 3 => { bad_out = true; d.p("nowhere/out") } _ => { bad_out = true; full.path() } }); }
        let before = d.snapshot(); let what = || format!("{} with {}; {}", name, ins.iter().zip(&st).map(|(n, s)| format!("{} {}", n, states[*s])).collect::<Vec<_>>().join(", "), os.iter().zip(&ot).map(|(n, s)| format!("{} {}", n, outs[*s])).collect::<Vec<_>>().join(", "));
        cx.state(&(name, &st, &ot)); cx.sample(&what);
        let r = match name { "encap" => cli_encap(&paths[0], &paths[1], &paths[2], &opaths[0], &opaths[1]), "decap" => cli_decap(&paths[0], &paths[1], &paths[2], &opaths[0]), "encrypt" => cli_encrypt(&paths[0], &paths[1], &paths[2], &paths[3], &opaths[0], true), _ => cli_decrypt(&paths[0], &paths[1], &paths[2], &opaths[0]) }; cx.op(); cx.traced();
        let after = d.snapshot(); let ins_of = |v: &[(String, Option<Vec<u8>>)]| v.iter().filter(|x| x.0.starts_with("in-")).cloned().collect::<Vec<_>>(); cx.check(ins_of(&before) == ins_of(&after), "faults:input-modified", || what());
        match r { Err(e) => cx.violation("faults:panic", format!("{}: {}", what(), e)),
            Ok(Ok(())) => { if faulty || bad_out { return cx.violation("faults:success-reported", what()); } cx.outcome("done");
                let get = |n: &str| d.get(&format!("out-{}", n)).unwrap_or_default(); let msg = std::fs::read(d.p("in-m")).unwrap_or_default();
                let ok = match name { "encap" => js_decap(&k.m.bytes(), &wtns(&k.a[1]), &get("ct")) == Ok(Ok(get("key"))) && get("key").len() == 32, "decap" => get("key") == made[0].2, "encrypt" => split(&get("o")).map_or(false, |p| js_decap(&k.m.bytes(), &wtns(&k.a[1]), &p.ct).ok().and_then(|r| r.ok()).map_or(false, |key| mc::guarded(|| zkenc_cli::crypto::decrypt_gcm(&key, &p.msg).ok()) == Ok(Some(msg.clone())))), _ => get("o") == b"the message" };
                cx.check(ok, "faults:wrong-output", || what()); let mut names = before.iter().map(|x| x.0.clone()).collect::<HashSet<_>>(); names.extend(os.iter().map(|o| format!("out-{}", o))); cx.check(after.iter().all(|x| names.contains(&x.0)), "faults:extra-file", || format!("{}: {:?}", what(), d.names())); }
            Ok(Err(e)) => { cx.outcome("refused"); if !faulty && !bad_out { return cx.violation("faults:refused", format!("{}: {}", what(), e)); } if faulty { cx.check(before == after, "faults:output-touched", || format!("{}: {:?}", what(), d.names())); } } }
    });
}
/// The built command line tool.
fn tool() -> String { let mut p = std::env::current_exe().unwrap(); p.set_file_name("zkenc"); p.to_string_lossy().into_owned() }
pub fn c18() {
    let exe = tool(); if !std::path::Path::new(&exe).exists() { panic!("no {}", exe) }
    let k = cases()[1].clone(); let f = files(&k); f.d.put("m", b"the message"); let ok = cli_encap(&f.c, &f.s, &f.i, &f.d.p("ct"), &f.d.p("k")) == Ok(Ok(())) && cli_encrypt(&f.c, &f.s, &f.i, &f.d.p("m"), &f.d.p("x"), true) == Ok(Ok(())); let (ct, key, comb) = (f.d.get("ct").unwrap_or_default(), f.d.get("k").unwrap_or_default(), f.d.get("x").unwrap_or_default());
    // long option, short option, file role
    type Opt = (&'static str, Option<&'static str>, &'static str);
    let cmds: [(&str, &[Opt]); 4] = [
        ("encap", &[("circuit", Some("c"), "c"), ("sym", Some("s"), "s"), ("input", Some("i"), "i"), ("ciphertext", None, "out-ct"), ("key", Some("k"), "out-key")]),
        ("decap", &[("circuit", Some("c"), "c"), ("witness", Some("w"), "w"), ("ciphertext", None, "ct"), ("key", Some("k"), "out-key")]),
        ("encrypt", &[("circuit", Some("c"), "c"), ("sym", Some("s"), "s"), ("input", Some("i"), "i"), ("message", Some("m"), "m"), ("output", Some("o"), "out-o")]),
        ("decrypt", &[("circuit", Some("c"), "c"), ("witness", Some("w"), "w"), ("ciphertext", Some("i"), "x"), ("output", Some("o"), "out-o")]),
    ];
    let setup = || { let d = Dir::new(); d.put("c", k.m.bytes()); d.put("s", sym(&k.m)); d.put("i", k.json()); d.put("w", wtns(&k.a[0])); d.put("m", b"the message"); d.put("ct", &ct); d.put("x", &comb); d };
    let run = |d: &Dir, args: &[String]| -> (Option<i32>, String) { let o = std::process::Command::new(&exe).args(args).current_dir(&d.0).stdin(std::process::Stdio::null()).output(); match o { Ok(o) => (o.status.code(), format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))), Err(e) => (None, e.to_string()) } };
    let right = |cmd: &str, d: &Dir, embed: bool| -> bool { let get = |n: &str| d.get(n).unwrap_or_default(); match cmd { "encap" => js_decap(&k.m.bytes(), &wtns(&k.a[1]), &get("out-ct")) == Ok(Ok(get("out-key"))), "decap" => get("out-key") == key, "encrypt" => split(&get("out-o")).map_or(false, |p| p.flag == embed as u8 && p.json == if embed { Some(k.json().into_bytes()) } else { None } && js_decap(&k.m.bytes(), &wtns(&k.a[1]), &p.ct).ok().and_then(|r| r.ok()).map_or(false, |q| mc::guarded(|| zkenc_cli::crypto::decrypt_gcm(&q, &p.msg).ok()) == Ok(Some(b"the message".to_vec())))), _ => get("out-o") == b"the message" } };
    let ins = |d: &Dir| d.snapshot().into_iter().filter(|x| !x.0.starts_with("out-")).collect::<Vec<_>>();
    explore("orders", "every order of the options of every command, long options (up to 2 spelled --option=value, short, or shortened -ovalue), with and without --no-public-input at every place", 2, |cx| {
        if !ok { return cx.violation("options:setup", "the operations fail".into()); }
        let (cmd, os) = cmds[cx.choose(4)]; let pm = cx.permutation(os.len()); let d = setup(); let mut args: Vec<Vec<String>> = vec![];
        for x in pm { let (l, s, role) = os[x]; args.push(match (cx.dev(if s.is_some() { 4 } else { 2 }), s) { (1, _) => vec![format!("--{}={}", l, role)], (2, Some(s)) => vec![format!("-{}", s), role.into()], (3, Some(s)) => vec![format!("-{}{}", s, role)], _ => vec![format!("--{}", l), d.p(role)] }); }
        let mut embed = true; if cmd == "encrypt" { let at = cx.dev(os.len() + 2); if at > 0 { embed = false; args.insert(at - 1, vec!["--no-public-input".into()]); } }
        let args: Vec<String> = std::iter::once(cmd.to_string()).chain(args.concat()).collect(); let before = ins(&d); let (code, text) = run(&d, &args); cx.op(); cx.traced(); cx.state(&args.iter().map(|a| a.replace(&d.0, "")).collect::<Vec<_>>());
        cx.sample(|| args.join(" ").replace(&d.0, ""));
        if code != Some(0) { return cx.violation("options:refused", format!("{}: {:?} {}", args.join(" "), code, text)); }
        cx.check(right(cmd, &d, embed), "options:wrong-result", || args.join(" ")); cx.check(ins(&d) == before, "options:input-modified", || args.join(" ")); let outs: Vec<&str> = os.iter().map(|o| o.2).filter(|o| o.starts_with("out-")).collect(); let got: Vec<String> = d.names().into_iter().filter(|n| n.starts_with("out-")).collect(); cx.check(got == outs, "options:outputs", || format!("{}: {:?}", args.join(" "), got)); cx.outcome("done");
    });
    explore("refusals", "every subset of options missing, every unknown, repeated, misspelled, valueless or foreign option, no or unknown commands: non-zero exit, nothing touched", 0, |cx| {
        let (cmd, os) = cmds[cx.choose(4)]; let d = setup(); let kind = cx.choose(9); let mut args: Vec<String> = vec![]; let all = |skip: usize| -> Vec<String> { os.iter().enumerate().filter(|x| x.0 != skip).flat_map(|(_, o)| [format!("--{}", o.0), o.2.to_string()]).collect() };
        match kind {
            0 => { let mask = cx.choose((1 << os.len()) - 1); args.push(cmd.into()); for (i, o) in os.iter().enumerate() { if mask >> i & 1 == 1 { args.push(format!("--{}", o.0)); args.push(o.2.into()); } } }
            1 => { args.push(cmd.into()); args.extend(all(99)); let u = *cx.pick(&["--verbose", "--nopublicinput", "--no-public-inputs", "-z", "--circuits", "extra", "--sym-file=s", "--Output=q"]); let at = cx.choose(3); let p = [1, args.len() / 2 / 2 * 2 + 1, args.len()][at]; args.insert(p, u.into()); }
            2 => { args.push(cmd.into()); args.extend(all(99)); let i = cx.choose(os.len()); args.push(format!("--{}", os[i].0)); args.push(os[(i + 1) % os.len()].2.into()); }
            3 => { args.push(cmd.into()); let i = cx.choose(os.len()); args.extend(all(i)); args.push(format!("--{}", os[i].0)); }
            4 => { let c = *cx.pick(&["", "Encap", "encapsulate", "enc", "dec", "help-me", "encrypt2", "--circuit"]); if !c.is_empty() { args.push(c.into()); } args.extend(all(99)); }
            5 => { args.push(cmd.into()); if cmd == "encrypt" { return; } args.extend(all(99)); args.push("--no-public-input".into()); }
            6 => { let i = cx.choose(os.len()); args.push(cmd.into()); args.extend(all(i)); args.push(format!("--{}", os[i].0.to_uppercase())); args.push(os[i].2.into()); }
            7 => { args.push(cmd.into()); args.extend(all(99)); let o = cmds[cx.choose(4)]; let f: Vec<&Opt> = o.1.iter().filter(|x| !os.iter().any(|y| y.0 == x.0)).collect(); if f.is_empty() { return; } let x = f[cx.choose(f.len())]; args.push(format!("--{}", x.0)); args.push("m".into()); }
            _ => { if cmd != "encrypt" { return; } args.push(cmd.into()); args.extend(all(99)); args.push(cx.pick(&["--no-public-input=true", "--no-public-input=false", "--no-public-input=no"]).to_string()); }
        }
        let before = d.snapshot(); let (code, text) = run(&d, &args); cx.op(); cx.traced(); cx.state(&args); cx.sample(|| args.join(" "));
        cx.check(code.map_or(false, |c| c != 0) && !text.contains("panicked at"), if code == Some(0) { "options:accepted" } else { "options:crash" }, || format!("{:?}: {:?} {}", args, code, text)); cx.check(d.snapshot() == before, "options:touched", || format!("{:?}", args)); cx.outcome("refused");
    });
    explore("exit-status", "every input of every command missing, empty or exchanged for another one's file: non-zero exit and no output", 0, |cx| {
        let (cmd, os) = cmds[cx.choose(4)]; let d = setup(); let i = cx.choose(os.len()); let role = os[i].2; if role.starts_with("out-") { return; } let v = cx.choose(2 + os.len()); let mut val = role.to_string();
        match v { 0 => val = "nothing".into(), 1 => { if role == "m" { return; } d.put(role, b""); } n => { val = os[n - 2].2.into(); if n - 2 == i || val.starts_with("out-") || role == "m" { return; } } }
        let args: Vec<String> = std::iter::once(cmd.to_string()).chain(os.iter().enumerate().flat_map(|(j, o)| [format!("--{}", o.0), if j == i { val.clone() } else { o.2.to_string() }])).collect(); let before = d.snapshot(); let (code, text) = run(&d, &args); cx.op(); cx.traced(); cx.state(&(&args, v));
        cx.check(code.map_or(false, |c| c != 0) && !text.contains("panicked at"), if code == Some(0) { "options:failure-unreported" } else { "options:crash" }, || format!("{:?}: {:?} {}", args, code, text)); cx.check(d.snapshot() == before, "options:touched", || format!("{:?}", args)); cx.outcome("failed");
    });
}
