//! Named inputs reach the right wires: symbol files (command line package).
use mc::{explore, tier, Ctx};
use pure_cli::sym_parser::{get_input_signals, parse_sym_file};
use std::collections::HashMap;

fn parse(cx: &mut Ctx, text: &str, want: &HashMap<String, u32>) {
    let r = cx.call(|| parse_sym_file(text)); cx.state(text); cx.traced();
    let clip = |s: String| s.chars().take(400).collect::<String>();
    match r { Err(e) => cx.violation("sym:panic", format!("{:?}: {}", clip(text.into()), e)), Ok(Err(e)) => cx.violation("sym:refused", format!("{:?}: {}", clip(text.into()), e)),
        Ok(Ok(m)) => { cx.check(&m == want, "sym:differs", || clip(format!("{:?} read as {:?}, says {:?}", clip(text.into()), m, want))); cx.outcome("read"); } }
}
fn filter(cx: &mut Ctx, m: &HashMap<String, u32>, max: Option<u32>) {
    let want: HashMap<String, u32> = m.iter().filter(|(k, w)| k.starts_with("main.") && max.map_or(true, |x| **w <= x)).map(|(k, w)| (k[5..].to_string(), *w)).collect();
    let r = cx.call(|| get_input_signals(m, max)); cx.traced();
    match r { Err(e) => cx.violation("sym:panic", format!("{:?} {:?}: {}", m, max, e)), Ok(g) => { cx.check(g == want, "signals:differs", || format!("{:?} limit {:?}: {:?}", m, max, g)); cx.outcome("filtered"); } }
}
pub const NAMES: [&str; 20] = ["main.a", "main.b", "main.a[0]", "main.a[1]", "main.a[10]", "main.a[0][1]", "main.main.a", "main.c.x", "main.c.main.a", "mainx.y", "amain.b", "main", "other.z", "main.A", "main.a b", "main.測", "main._1", "main.", "Main.a", "xmain.a"];
pub fn run() {
    // every sequence of short lines
    let wires: [i64; 9] = [1, 0, -1, 2, 10, 255, 65_536, -2, i32::MAX as i64];
    let junk = ["", "   ", "\t"];
    explore("lines", "all files of 0..3 (thorough 4) lines: 20 names, boundary wire numbers (deviations), blanks, surrounding whitespace, LF/CRLF, with and without final line break", tier(3, 4), |cx| {
        let n = cx.choose(tier(4, 5)); let eol = *cx.dev_pick(&["\n", "\r\n"]);
        let mut want = HashMap::new(); let mut t = String::new();
        let mut used = vec![];
        for i in 0..n {
            if cx.dev(2) == 1 { t.push_str(*cx.pick(&junk)); t.push_str(eol); continue; }
            let k = if n <= 2 { cx.choose(NAMES.len()) } else { [0usize, 2, 6][cx.choose(3)] + cx.dev(3) };
            let k = k.min(NAMES.len() - 1); if used.contains(&k) { return; } used.push(k);
            let w = match cx.dev(wires.len() + 1) { 0 => (i as i64) * 3 + 1, j => wires[j - 1] };
            let label = *cx.dev_pick(&["1", "0", "77", "4294967296", "18446744073709551615"]); let comp = *cx.dev_pick(&["2", "-1", "0", "172"]);
            let (p, q) = *cx.dev_pick(&[("", ""), (" ", ""), ("", " "), ("  ", "\t")]);
            t.push_str(&format!("{}{},{}{}{},{},{}{}", p, label, p, w, q, comp, NAMES[k], q));
            if i + 1 < n || cx.dev(2) == 0 { t.push_str(eol); }
            if w >= 0 { want.insert(NAMES[k].trim().to_string(), w as u32); }
        }
        cx.sample(|| format!("{:?}", t));
        parse(cx, &t, &want);
    });
    explore("columns", "the four columns carry distinct numbers in every arrangement", 0, |cx| {
        let p = cx.permutation(3); let v: Vec<u32> = p.iter().map(|i| [5u32, 6, 7][*i]).collect(); let k = cx.choose(NAMES.len());
        parse(cx, &format!("{},{},{},{}\n", v[0], v[1], v[2], NAMES[k]), &HashMap::from([(NAMES[k].to_string(), v[1])]));
    });
    explore("wires", "every wire number 0..2000 (thorough 70000) and around powers of two", 0, |cx| {
        let n = tier(2000, 70_000); let i = cx.choose(n + 93);
        let w = if i < n { i as i64 } else { let j = i - n; (1i64 << (j / 3)) + (j % 3) as i64 - 1 };
        if w > i32::MAX as i64 { return; }
        parse(cx, &format!("1,{},2,main.x\n", w), &if w < 0 { HashMap::new() } else { HashMap::from([("main.x".to_string(), w as u32)]) });
    });
    explore("odd-lines", "lines that are not symbols do not change what the other lines say", 1, |cx| {
        let odd = ["1,2,3", "1", "a,b,c", "1,2,3,4,5", "#", ",,", "1;2;3;main.z"]; let o = *cx.pick(&odd); let at = cx.choose(3);
        let mut l = vec!["1,1,5,main.a".to_string(), "2,2,5,main.b".into()]; l.insert(at, o.into());
        let r = cx.call(|| parse_sym_file(&l.join("\n"))); cx.traced(); cx.state(&l);
        // refusing such a file is fine; accepting it must keep the good lines
        match r { Err(e) => cx.violation("sym:panic", e), Ok(Err(_)) => cx.outcome("refused"), Ok(Ok(m)) => { cx.check(m.get("main.a") == Some(&1) && m.get("main.b") == Some(&2), "sym:differs", || format!("{:?}: {:?}", l, m)); cx.outcome("read"); } }
    });
    explore("bad-wire", "wire numbers that are no numbers or out of range are never read as another wire", 0, |cx| {
        let w = *cx.pick(&["", "x", "1x", "1.0", "2147483648", "4294967295", "4294967296", "4294967297", "18446744073709551617", "-2147483649", "-4294967295", "0x1", "1 2", "--1", "1e3", "١"]);
        let r = cx.call(|| parse_sym_file(&format!("1,{},2,main.x\n2,3,2,main.y\n", w))); cx.traced(); cx.state(w);
        let val: Option<i128> = w.parse().ok();
        match r { Err(e) => cx.violation("sym:panic", e), Ok(Err(_)) => cx.outcome("refused"), Ok(Ok(m)) => { let g = m.get("main.x").map(|x| *x as i128); cx.check(g.is_none() || g == val, "sym:differs", || format!("wire {:?} read as {:?}", w, g)); cx.outcome("read"); } }
    });
    explore("size", "files of 0..70000 lines", 0, |cx| {
        let n = *cx.pick(&[0usize, 1, 2, 3, 7, 8, 16, 100, 255, 256, 257, 1000, 4096, 65_535, 65_536, 70_000]);
        let mut t = String::new(); let mut want = HashMap::new();
        for i in 0..n { let w = (i * 7 % n) as i64 - if i % 5 == 4 { 1_000_000 } else { 0 }; t.push_str(&format!("{},{},{},main.s[{}]\n", i + 1, if w < 0 { -1 } else { w }, i % 9, i)); if w >= 0 { want.insert(format!("main.s[{}]", i), w as u32); } }
        parse(cx, &t, &want);
    });
    explore("signals", "every subset of 20 names of size 0..3 over boundary wires, every limit", 0, |cx| {
        let n = cx.choose(4); let mut m = HashMap::new(); let ws = [0u32, 1, 2, 3, u32::MAX];
        let mut from = 0;
        for _ in 0..n { if from >= NAMES.len() { return; } let k = from + cx.choose(NAMES.len() - from); from = k + 1; let w = if n < 3 { *cx.pick(&ws) } else { [1u32, 2, 3][cx.choose(3)] }; m.insert(NAMES[k].to_string(), w); }
        let max = *cx.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(u32::MAX - 1), Some(u32::MAX)]);
        cx.state(&format!("{:?}{:?}", { let mut v: Vec<_> = m.iter().collect(); v.sort(); v }, max));
        filter(cx, &m, max);
    });
}
