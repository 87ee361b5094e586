//! Circuit input files are flattened in order.
use crate::file;
use mc::{explore, tier, Ctx};
use pure_cli::circom::parse_inputs;
use std::collections::HashMap;
#[derive(Clone, Debug)]
enum V { Num(&'static str), Str(String, String), Bool(bool), Null, Arr(Vec<V>)}
impl V {
    fn text(&self, sp: &str) -> String { match self { V::Num(n) => n.to_string(), V::Str(j, _) => j.clone(), V::Bool(b) => b.to_string(), V::Null => "null".into(), V::Arr(a) => format!("[{}{}{}]", sp, a.iter().map(|v| v.text(sp)).collect::<Vec<_>>().join(&format!("{},{}", sp, sp)), sp) } }
    fn flat(&self, out: &mut Vec<String>) { match self { V::Num(n) => out.push(n.to_string()), V::Str(_, s) => out.push(s.clone()), V::Bool(b) => out.push(if *b { "1" } else { "0" }.into()), V::Null => out.push("0".into()), V::Arr(a) => a.iter().for_each(|v| v.flat(out)) } }
}
fn s(x: &str) -> V { V::Str(format!("\"{}\"", x), x.to_string()) }
fn scalars() -> Vec<V> {
    let mut v = vec![V::Num("7"), V::Bool(true), V::Bool(false), V::Null, s("0x1f"), s("")];
    v.extend(["0", "1", "-1", "10", "100", "127", "128", "255", "256", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615"].map(V::Num));
    v.extend(["1", "-1", "007", " 5 ", "+5", "1e3", "21888242871839275222246405745257275088548364400416034343698204186575808495617", "99999999999999999999999999999999999999999999999999999999999999999999999999999999", "true", "null", "測試", "[1]", "a,b"].map(s));
    v.push(V::Str("\"\\u0041\\n\\\"\\\\\"".into(), "A\n\"\\".into())); v.push(V::Str("\"\\ud83d\\ude00\"".into(), "😀".into()));
    v
}
fn lossy() -> Vec<V> { ["18446744073709551616", "-9223372036854775809", "21888242871839275222246405745257275088548364400416034343698204186575808495616", "1.0", "1.50", "1e3", "1E3", "-0", "-0.0", "0.1", "1e-7", "123456789012345678901234567890.5"].map(V::Num).to_vec() }
fn expect(cx: &mut Ctx, text: &str, want: &HashMap<String, Vec<String>>, sig: &str) {
    let p = file("in.json", text.as_bytes());
    let r = cx.call(|| parse_inputs(&p)); cx.state(text); cx.traced();
    let clip = |s: String| s.chars().take(300).collect::<String>();
    match r { Err(e) => cx.violation("inputs:panic", format!("{}: {}", clip(text.into()), e)), Ok(Err(e)) => cx.violation("inputs:refused", format!("{}: {:#}", clip(text.into()), e)),
        Ok(Ok(m)) => { let sig = if sig.ends_with(':') { format!("{}{}", sig, m.get("k").and_then(|v| v.last()).cloned().unwrap_or_default()) } else { sig.to_string() }; cx.check(&m == want, &sig, || clip(format!("{} read as {:?}", clip(text.into()), m))); cx.outcome("read"); } }
}
fn tree(cx: &mut Ctx, depth: usize, leaves: &mut usize, width: usize) -> V {
    // leaves are numbered, so that any reordering or loss shows
    let k = cx.choose(if depth == 0 { 1 } else { width + 2 });
    if k == 0 { *leaves += 1; return s(&format!("v{}", leaves)); }
    V::Arr((0..k - 1).map(|_| tree(cx, depth - 1, leaves, width)).collect())
}
pub fn run() {
    let sc = scalars();
    explore("scalar", "every scalar kind and spelling, alone, in arrays of 1..3 at every place, nested", 0, |cx| {
        let v = cx.pick(&sc).clone(); let shape = cx.choose(8); let sp = *cx.pick(&["", " ", "\n\t"]);
        let w = match shape { 0 => v, 1 => V::Arr(vec![v]), 2 => V::Arr(vec![v, s("n")]), 3 => V::Arr(vec![V::Num("3"), v]), 4 => V::Arr(vec![s("a"), v, s("b")]), 5 => V::Arr(vec![V::Arr(vec![v, s("b")]), s("c")]), 6 => V::Arr(vec![V::Arr(vec![]), V::Arr(vec![V::Arr(vec![v])])]), _ => V::Arr(vec![v.clone(), v]) };
        let mut f = vec![]; w.flat(&mut f);
        let t = format!("{}{{{}\"k\"{}:{}{}{}}}{}", sp, sp, sp, sp, w.text(sp), sp, sp);
        cx.sample(|| t.clone());
        expect(cx, &t, &HashMap::from([("k".to_string(), f)]), "inputs:differs");
    });
    explore("wide-number", "bare numbers that do not fit a 64-bit integer, in the same shapes", 0, |cx| {
        let l = lossy(); let v = cx.pick(&l).clone(); let V::Num(n) = &v else { unreachable!() }; let n = n.to_string();
        let w = if cx.flag() { V::Arr(vec![s("a"), v]) } else { v };
        let mut f = vec![]; w.flat(&mut f);
        expect(cx, &format!("{{\"k\":{}}}", w.text("")), &HashMap::from([("k".to_string(), f)]), &format!("inputs:number-text:{}:", n));
    });
    explore("shape", "every array tree of depth 3 and width 2 (thorough: width 3)", 0, |cx| {
        let mut n = 0; let mut f = vec![];
        let v = if cx.flag() { let w = V::Arr((0..3).map(|_| tree(cx, 2, &mut n, 1)).collect()); w } else { tree(cx, 3, &mut n, tier(2, 2)) };
        v.flat(&mut f);
        expect(cx, &format!("{{\"k\":{}}}", v.text("")), &HashMap::from([("k".to_string(), f)]), "inputs:differs");
    });
    if mc::thorough() { explore("shape-wide", "every array tree of depth 2 and width 4, and of depth 4 and width 1", 0, |cx| {
        let mut n = 0; let mut f = vec![]; let v = if cx.flag() { tree(cx, 2, &mut n, 4) } else { tree(cx, 6, &mut n, 1) }; v.flat(&mut f);
        expect(cx, &format!("{{\"k\":{}}}", v.text("")), &HashMap::from([("k".to_string(), f)]), "inputs:differs");
    }); }
    let keys = ["a", "b", "A", "", "a[0]", "a.b", "main.a", "測", "\u{0}", "\"", " a", "constructor", "__proto__", "x_1"];
    explore("keys", "0..3 top-level keys from 14 names, three value kinds each, in every order", 0, |cx| {
        let n = cx.choose(4); let mut want = HashMap::new(); let mut parts = vec![]; let mut used = vec![];
        for i in 0..n {
            let k = cx.choose(keys.len()); if used.contains(&k) { return; } used.push(k);
            let v = match cx.choose(4) { 0 => s(&format!("v{}", i)), 1 => V::Arr(vec![s(&format!("x{}", i)), V::Arr(vec![V::Num("2"), V::Null])]), 2 => V::Arr(vec![]), _ => V::Bool(true) };
            let mut f = vec![]; v.flat(&mut f); want.insert(keys[k].to_string(), f);
            let kj: String = keys[k].chars().map(|c| match c { '"' => "\\\"".into(), '\0' => "\\u0000".into(), c => c.to_string() }).collect();
            parts.push(format!("\"{}\":{}", kj, v.text("")));
        }
        expect(cx, &format!("{{{}}}", parts.join(",")), &want, "inputs:differs");
    });
    let ns = [0usize, 1, 2, 3, 9, 10, 11, 16, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 1024, 4096, 65_536, 70_000];
    explore("long", "arrays, rows, keys and strings of every listed length", 0, |cx| {
        let n = *cx.pick(&ns); let k = cx.choose(4);
        let (v, name) = match k { 0 => (V::Arr((0..n).map(|i| s(&i.to_string())).collect()), "k".to_string()), 1 => (V::Arr((0..n).map(|i| V::Arr(vec![s(&format!("a{}", i)), s(&format!("b{}", i))])).collect()), "k".into()), 2 => (s(&"z".repeat(n)), "k".into()), _ => (V::Num("5"), "q".repeat(n)) };
        let mut f = vec![]; v.flat(&mut f);
        expect(cx, &format!("{{\"{}\":{}}}", name, v.text("")), &HashMap::from([(name.clone(), f)]), "inputs:differs");
    });
    explore("many-keys", "objects of 0..1000 keys", 0, |cx| {
        let n = *cx.pick(&[0usize, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257, 1000]);
        let t = (0..n).map(|i| format!("\"k{}\":[{},\"{}\"]", i, i, i * 2)).collect::<Vec<_>>().join(",");
        expect(cx, &format!("{{{}}}", t), &(0..n).map(|i| (format!("k{}", i), vec![i.to_string(), (i * 2).to_string()])).collect(), "inputs:differs");
    });
    explore("deep", "arrays nested 1..100 deep around two values", 0, |cx| {
        let d = cx.choose(100) + 1;
        let t = format!("{{\"k\":{}\"a\",\"b\"{}}}", "[".repeat(d), "]".repeat(d));
        expect(cx, &t, &HashMap::from([("k".into(), vec!["a".into(), "b".into()])]), "inputs:differs");
    });
    let bad: Vec<Vec<u8>> = ["", " ", "[]", "[1]", "[{\"a\":1}]", "1", "\"a\"", "null", "true", "{", "}", "{\"a\"}", "{\"a\":}", "{\"a\":1", "{\"a\":1}}", "{\"a\":1} x", "{\"a\":1}{\"b\":2}", "{a:1}", "{'a':1}", "{\"a\":01}", "{\"a\":1,}", "{\"a\":[1,]}", "{\"a\":[1}", "{\"a\":+1}", "{\"a\":.5}", "{\"a\":NaN}", "{\"a\":0x10}", "{\"a\":\"x}", "{\"a\":\"\n\"}", "// c\n{\"a\":1}", "{\"a\":tru}", "{\"a\":1 2}", "{\"a\" 1}", "{,}", "{\"a\":\"\\x\"}"].iter().map(|s| s.as_bytes().to_vec()).chain([vec![b'{', b'"', 0xff, b'"', b':', b'1', b'}'], vec![0xff, 0xfe], b"{\"a\":\"\xed\xa0\x80\"}".to_vec(), vec![0; 10]]).collect();
    explore("not-an-object", "files that are not a JSON object, and files that cannot be read", 0, |cx| {
        let k = cx.choose(bad.len() + 3);
        let (what, p) = if k < bad.len() { (format!("{:?}", String::from_utf8_lossy(&bad[k])), file("bad.json", &bad[k])) } else { let p = ["/nonexistent/in.json".to_string(), mc::scratch(), format!("{}/none.json", mc::scratch())][k - bad.len()].clone(); (p.clone(), p) };
        let r = cx.call(|| parse_inputs(&p)); cx.state(&what); cx.traced();
        cx.check(matches!(r, Ok(Err(_))), "inputs:accepted", || format!("{} gave {:?}", what, r)); cx.outcome("refused");
    });
}
