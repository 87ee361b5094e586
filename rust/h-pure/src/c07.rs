//! Damaged or hostile files are rejected (arkworks-free readers).
use crate::c06::{diff, distinct, of_file};
use crate::file;
use mc::alloc::peak;
use mc::formats::*;
use mc::{explore, tier, Ctx};
use pure_cli::r1cs::R1csFile;

pub fn allowed(len: usize) -> u64 { (1 << 20) + 200 * len as u64 }
fn judge(cx: &mut Ctx, bytes: &[u8], what: &dyn Fn() -> String) {
    let p = file("d.r1cs", bytes);
    let want = read_r1cs(bytes, true);
    // known: a file without labels gets a default table of 8 bytes per declared wire; 2^20 wires show it, more would only cost memory
    if !matches!(want, Verdict::Invalid(_)) && default_table(bytes).map_or(false, |n| n > 1 << 20) { return cx.outcome("skipped: default label table above 2^20 wires"); }
    let (r, mem) = peak(|| mc::guarded(|| R1csFile::from_file(&p)));
    cx.op(); cx.state(bytes); cx.traced();
    if mem > allowed(bytes.len()) {
        let no_labels = !matches!(want, Verdict::Invalid(_)) && default_table(bytes).map_or(false, |n| mem <= allowed(bytes.len()) + 24 * n as u64);
        let sig = if no_labels { "cli-reader:memory:default-label-table" } else { "cli-reader:memory" };
        cx.violation(sig, format!("{}: {} bytes allocated for a file of {} bytes", what(), mem, bytes.len()));
    }
    match (r, want) {
        (Err(e), _) => cx.violation("cli-reader:panic", format!("{}: panic: {}", what(), e)),
        (Ok(Err(_)), w) => cx.outcome(if matches!(w, Verdict::Valid(_)) { "refused-valid" } else { "refused" }),
        (Ok(Ok(f)), Verdict::Valid(mut m)) => {
            if m.labels.is_none() { m.labels = Some(f.wire2label.clone()); if f.wire2label.len() as u64 != m.n_wires as u64 { cx.violation("cli-reader:labels", format!("{}: {} default labels for {} wires", what(), f.wire2label.len(), m.n_wires)); } }
            let g = of_file(&f); cx.check(g == m, "cli-reader:wrong-data", || format!("{}: accepted as something else: {}", what(), diff(&g, &m))); cx.outcome("valid");
        }
        (Ok(Ok(_)), Verdict::Open(_)) => cx.outcome("open"),
        (Ok(Ok(f)), Verdict::Invalid(why)) => cx.violation(&format!("cli-reader:accepted:{}", why), format!("{}: accepted although: {} (wires {} constraints {})", what(), why, f.n_wires, f.n_constraints)),
    }
}
/// number of wires of a file without a label section
fn default_table(b: &[u8]) -> Option<u32> {
    let c = read_container(b, b"r1cs", 1).ok()?;
    if c.sections.iter().any(|s| s.0 == 3) { return None; }
    let h = c.sections.iter().find(|s| s.0 == 1)?.1; let fs = u32::from_le_bytes(h.get(..4)?.try_into().ok()?) as usize;
    Some(u32::from_le_bytes(h.get(4 + fs..8 + fs)?.try_into().ok()?))
}
/// offsets of all integer fields: (offset, bytes)
fn fields(sections: &[(u32, Vec<u8>)]) -> Vec<(usize, usize, &'static str)> {
    let mut v = vec![(4, 4, "version"), (8, 4, "section count")];
    let mut p = 12;
    for (t, b) in sections {
        v.push((p, 4, "section type")); v.push((p + 4, 8, "section size"));
        let s = p + 12;
        match t {
            1 => { let fs = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize; v.push((s, 4, "field size"));
                   for (i, n) in ["wires", "public outputs", "public inputs", "private inputs"].iter().enumerate() { v.push((s + 4 + fs + 4 * i, 4, n)); }
                   v.push((s + 20 + fs, 8, "labels")); v.push((s + 28 + fs, 4, "constraints")); }
            2 => { let fs = sections.iter().find(|x| x.0 == 1).map(|x| u32::from_le_bytes(x.1[..4].try_into().unwrap()) as usize).unwrap();
                   let mut q = 0; while q < b.len() { v.push((s + q, 4, "factor count")); let n = u32::from_le_bytes(b[q..q + 4].try_into().unwrap()) as usize; q += 4; for _ in 0..n { v.push((s + q, 4, "wire number")); q += 4 + fs; } } }
            _ => {}
        }
        p = s + b.len();
    }
    v
}
fn values(n: usize, orig: u64, len: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 7, 8, 16, 32, 255, 256, 1000, 65_535, 65_536, 1 << 20, 1 << 24, 0x0fff_ffff, 0x3fff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 0xffff_fffe, 0xffff_ffff, orig.wrapping_add(1), orig.wrapping_sub(1), orig.wrapping_mul(2), len as u64, len as u64 - 1, len as u64 + 1];
    if n == 8 { v.extend([1 << 32, (1 << 32) + 1, (1 << 32) + orig, 1 << 40, (1 << 62) - 1, i64::MAX as u64, i64::MAX as u64 - 1, 1 << 63, (1 << 63) + 1, u64::MAX, u64::MAX - 1, u64::MAX - 11, u64::MAX - 12, u64::MAX - len as u64, 0u64.wrapping_sub(orig), (1 << 63) + orig, i64::MIN as u64 + 12]); for k in 1..=tier(40, 130) { v.push(0u64.wrapping_sub(k)); } }
    let m = if n == 8 { u64::MAX } else { u32::MAX as u64 };
    v.iter_mut().for_each(|x| *x &= m); v.sort(); v.dedup(); v
}
fn bases() -> Vec<(&'static str, Vec<(u32, Vec<u8>)>)> {
    let a = distinct(1, 4, &[[1, 0, 1]], true);
    let b = distinct(32, 5, &[[1, 2, 1], [0, 1, 0]], true);
    let c = distinct(8, 5, &[[1, 1, 1]], false);
    let mut ra = a.sections(); ra.reverse();
    let mut u = c.sections(); u.insert(1, (7, vec![1, 0, 0, 0, 1, 0, 0, 0, 0, 9])); u.push((4, vec![2; 5]));
    vec![("tiny", a.sections()), ("labels first", ra), ("no labels", c.sections()), ("unknown sections", u), ("two constraints", b.sections()), ("empty", distinct(1, 4, &[], true).sections())]
}
pub fn run() {
    let bs = bases();
    explore("r1cs-truncate", "every prefix of six circuit files", 0, |cx| {
        let (n, s) = cx.pick(&bs); let b = container(b"r1cs", 1, s); let k = cx.choose(b.len());
        cx.sample(|| format!("{} cut to {} of {} bytes", n, k, b.len()));
        judge(cx, &b[..k], &|| format!("{} cut to {} of {} bytes", n, k, b.len()));
    });
    explore("r1cs-byte", "every byte of six circuit files replaced by every (the large file: 16) other values", 0, |cx| {
        let (n, s) = cx.pick(&bs); let mut b = container(b"r1cs", 1, s); let i = cx.choose(b.len());
        let all = b.len() < 200 || mc::thorough();
        let x = if all { cx.choose(255) as u8 + 1 } else { *cx.pick(&[1u8, 2, 3, 4, 8, 16, 32, 64, 128, 255, 0x7f, 0x80 | 1, 6, 12, 0x55, 0xf0]) };
        let old = b[i]; b[i] ^= x;
        judge(cx, &b, &|| format!("{}: byte {} {:#x} -> {:#x}", n, i, old, old ^ x));
    });
    explore("r1cs-field", "every integer field of six circuit files set to every boundary value; every truncation-free pair of such faults (quick: second fault from a short list)", tier(2, 2), |cx| {
        let (n, s) = cx.pick(&bs); let mut b = container(b"r1cs", 1, s); let fs = fields(s);
        let mut what = n.to_string();
        let one = |cx: &mut Ctx, b: &mut Vec<u8>, what: &mut String, short: bool, from: usize| -> usize {
            let i = from + cx.choose(fs.len() - from); let (o, w, name) = fs[i];
            let mut orig = [0u8; 8]; orig[..w].copy_from_slice(&b[o..o + w]); let orig = u64::from_le_bytes(orig);
            let vs = if short { let mut v = vec![0, 1, 0xffff_ffff, orig.wrapping_add(1) & 0xffff_ffff, 0x4000_0000]; if w == 8 { v.push(u64::MAX); v.push(1 << 63); } v } else { values(w, orig, b.len()) };
            let v = *cx.pick(&vs); b[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
            what.push_str(&format!(", {} at {} := {}", name, o, v)); i
        };
        let i = one(cx, &mut b, &mut what, false, 0);
        if cx.flag() && i + 1 < fs.len() { one(cx, &mut b, &mut what, !mc::thorough(), i + 1); }
        cx.sample(|| what.clone());
        judge(cx, &b, &|| what.clone());
    });
    // missing, repeated and extended
    explore("r1cs-sections", "every subset and repetition of sections, magic and version variants, trailing bytes", 0, |cx| {
        let (n, s) = cx.pick(&bs); let mut v = vec![];
        let mut what = n.to_string();
        for x in s { let k = cx.choose(3); what.push_str(&format!(" {}x{}", x.0, k)); for _ in 0..k { v.push(x.clone()); } }
        let mut b = container(b"r1cs", 1, &v);
        match cx.choose(5) { 0 => {} 1 => b.extend([0; 3]), 2 => b[0..4].copy_from_slice(b"wtns"), 3 => b[4] = 2, _ => { b = container(b"r1cs", 1, &[v.clone(), v].concat()); } }
        judge(cx, &b, &|| what.clone());
    });
    explore("r1cs-empty-path", "nonexistent file, directory, empty file", 0, |cx| {
        let p = match cx.choose(3) { 0 => format!("{}/nowhere/x", mc::scratch()), 1 => mc::scratch(), _ => file("e", b"") };
        match cx.call(|| R1csFile::from_file(&p)) { Ok(Err(_)) => cx.outcome("refused"), Ok(Ok(_)) => cx.violation("cli-reader:accepted:nothing", p), Err(e) => cx.violation("cli-reader:panic", e) }
    });
    // JSON inputs
    let good = br#"{"a":[1,-2,["3",true]],"b\u0041":"x","c":null}"#.to_vec();
    explore("input-bytes", "every prefix and every single-byte change of an input file", 0, |cx| {
        let mut b = good.clone(); let i = cx.choose(b.len()); let cut = cx.flag();
        if cut { b.truncate(i) } else { let x = cx.choose(255) as u8 + 1; b[i] ^= x; }
        let p = file("i.json", &b);
        let (r, mem) = peak(|| mc::guarded(|| pure_cli::circom::parse_inputs(&p)));
        cx.op(); cx.state(&b); cx.traced();
        cx.check(mem <= allowed(b.len()), "inputs:memory", || format!("{} bytes for {} bytes of input", mem, b.len()));
        match r { Err(e) => cx.violation("inputs:panic", format!("{:?}: {}", String::from_utf8_lossy(&b), e)),
            Ok(Ok(m)) => { cx.outcome("accepted"); let ok = !cut && json_object(&b); cx.check(ok, "inputs:accepted", || format!("not a JSON object but accepted as {:?}: {:?}", m, String::from_utf8_lossy(&b))); }
            Ok(Err(_)) => cx.outcome("refused") }
    });
    explore("input-depth", "arrays nested 0..2000 deep, closed and unclosed", 0, |cx| {
        let d = *cx.pick(&[0usize, 1, 10, 100, 126, 127, 128, 129, 1000, 2000, 100_000]); let closed = cx.flag();
        let s = format!("{{\"a\":{}1{}", "[".repeat(d), if closed { "]".repeat(d) + "}" } else { String::new() });
        let p = file("n.json", s.as_bytes());
        match cx.call(|| pure_cli::circom::parse_inputs(&p)) { Err(e) => cx.violation("inputs:panic", e), Ok(Ok(_)) => { cx.check(closed, "inputs:accepted", || "unclosed input accepted".into()); } Ok(Err(_)) => cx.outcome("refused") }
    });
    // symbol files
    let sym = "1,1,2,main.out\r\n2,-1,3,main.c.x\n\n3,2,2,main.a[0]\n".as_bytes().to_vec();
    explore("sym-bytes", "every single-byte change and truncation of a symbol file, every pair with a comma or line break", 1, |cx| {
        let mut b = sym.clone(); let i = cx.choose(b.len());
        let x = cx.choose(256); if x == 0 { b.truncate(i) } else { b[i] ^= x as u8; }
        if !b.is_empty() && cx.flag() { let j = cx.choose(b.len()); let c = *cx.pick(&[b',', b'\n', b'-', 0xff, b' ']); b[j] = c; }
        let s = String::from_utf8_lossy(&b).to_string();
        let (r, mem) = peak(|| mc::guarded(|| pure_cli::sym_parser::parse_sym_file(&s)));
        cx.op(); cx.state(&b); cx.traced();
        cx.check(mem <= allowed(b.len()), "sym:memory", || format!("{}", mem));
        match r { Err(e) => cx.violation("sym:panic", format!("{:?}: {}", s, e)), Ok(Err(_)) => cx.outcome("refused"), Ok(Ok(m)) => {
            cx.outcome("accepted");
            // nothing may appear that no line says
            for (k, w) in &m { let said = s.lines().any(|l| { let f: Vec<&str> = l.trim().split(',').collect(); f.len() == 4 && f[3].trim() == k && f[1].trim().parse::<i64>().ok() == Some(*w as i64) });
                cx.check(said, "sym:invented", || format!("{:?} -> {} is not in {:?}", k, w, s)); } } }
    });
    // exported circuits
    use pure_cli::serializable as ser;
    let sc = crate::c08::cli::circuit(&crate::c08::Circuit { base: distinct(3, 4, &[[1, 0, 1]], false), n_constraints: 1, labels: None });
    let enc = [sc.to_bincode().unwrap(), sc.to_json().unwrap().into_bytes()];
    explore("export-bytes", "every prefix and every single-byte change of an exported circuit (binary and JSON), and every 8-byte length set to boundary values", 0, |cx| {
        let k = cx.choose(2); let mut b = enc[k].clone(); let i = cx.choose(b.len()); let kind = cx.choose(3);
        match kind { 0 => b.truncate(i), 1 => { let x = if k == 0 || mc::thorough() { cx.choose(255) as u8 + 1 } else { *cx.pick(&[1u8, 2, 4, 8, 16, 32, 64, 128, 0xff]) }; b[i] ^= x; }
            _ => { if k == 1 || i + 8 > b.len() { return; } let v = *cx.pick(&[u64::MAX, i64::MAX as u64, 1 << 63, 1 << 40, 1 << 32, 0xffff_ffff, 1 << 24, 1 << 20]); b[i..i + 8].copy_from_slice(&v.to_le_bytes()); } }
        let f = |b: &[u8]| if k == 0 { ser::SerializableCircuit::from_bincode(b).is_ok() } else { std::str::from_utf8(b).map_or(false, |s| ser::SerializableCircuit::from_json(s).is_ok()) };
        let (r, mem) = peak(|| mc::guarded(|| f(&b)));
        cx.op(); cx.state(&b); cx.traced();
        // serde reserves at most 1 MiB ahead per collection
        cx.check(mem <= (16 << 20) + 200 * b.len() as u64, "export:memory", || format!("{} bytes for {}", mem, b.len()));
        match r { Err(e) => cx.violation("export:panic", e), Ok(ok) => { cx.outcome(if ok { "accepted" } else { "refused" }); cx.check(!(ok && kind == 0), "export:accepted-cut", || format!("{} export cut to {} of {} bytes accepted", ["binary", "JSON"][k], i, enc[k].len())); } }
    });
}
/// independent recogniser of a JSON object
fn json_object(b: &[u8]) -> bool {
    fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && b" \t\r\n".contains(&b[*p]) { *p += 1 } }
    fn string(b: &[u8], p: &mut usize) -> bool {
        if b.get(*p) != Some(&b'"') { return false; } *p += 1;
        loop { match b.get(*p) { None => return false, Some(b'"') => { *p += 1; return true; } Some(b'\\') => { match b.get(*p + 1) { Some(c) if b"\"\\/bfnrt".contains(c) => *p += 2, Some(b'u') => { if *p + 6 > b.len() || !b[*p + 2..*p + 6].iter().all(|c| c.is_ascii_hexdigit()) { return false; } *p += 6; } _ => return false } } Some(c) if *c < 0x20 => return false, _ => *p += 1 } }
    }
    fn value(b: &[u8], p: &mut usize) -> bool {
        ws(b, p);
        match b.get(*p) {
            Some(b'{') => { *p += 1; ws(b, p); if b.get(*p) == Some(&b'}') { *p += 1; return true; }
                loop { ws(b, p); if !string(b, p) { return false; } ws(b, p); if b.get(*p) != Some(&b':') { return false; } *p += 1; if !value(b, p) { return false; } ws(b, p); match b.get(*p) { Some(b',') => *p += 1, Some(b'}') => { *p += 1; return true; } _ => return false } } }
            Some(b'[') => { *p += 1; ws(b, p); if b.get(*p) == Some(&b']') { *p += 1; return true; }
                loop { if !value(b, p) { return false; } ws(b, p); match b.get(*p) { Some(b',') => *p += 1, Some(b']') => { *p += 1; return true; } _ => return false } } }
            Some(b'"') => string(b, p),
            Some(b't') => lit(b, p, b"true"), Some(b'f') => lit(b, p, b"false"), Some(b'n') => lit(b, p, b"null"),
            Some(c) if *c == b'-' || c.is_ascii_digit() => {
                if b[*p] == b'-' { *p += 1 }
                match b.get(*p) { Some(b'0') => *p += 1, Some(c) if c.is_ascii_digit() => while *p < b.len() && b[*p].is_ascii_digit() { *p += 1 }, _ => return false }
                if b.get(*p) == Some(&b'.') { *p += 1; let s = *p; while *p < b.len() && b[*p].is_ascii_digit() { *p += 1 } if s == *p { return false; } }
                if matches!(b.get(*p), Some(b'e' | b'E')) { *p += 1; if matches!(b.get(*p), Some(b'+' | b'-')) { *p += 1 } let s = *p; while *p < b.len() && b[*p].is_ascii_digit() { *p += 1 } if s == *p { return false; } }
                true }
            _ => false,
        }
    }
    fn lit(b: &[u8], p: &mut usize, l: &[u8]) -> bool { if b[*p..].starts_with(l) { *p += l.len(); true } else { false } }
    let mut p = 0; ws(b, &mut p);
    if b.get(p) != Some(&b'{') || std::str::from_utf8(b).is_err() { return false; }
    if !value(b, &mut p) { return false; } ws(b, &mut p); p == b.len()
}
