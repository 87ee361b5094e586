//! Every nonce and IV is fresh entropy (Rust AES helpers).
use getrandom::control::{self, Source};
use mc::{explore, tier};
use pure_cli::crypto::*;
use std::collections::HashSet;
/// Run in a new thread, so that per-thread generators start from the controlled entropy.
pub fn fresh<T: Send>(seed: u64, fail_from: Option<u64>, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    std::thread::scope(|s| s.spawn(|| { control::install(Source::Seeded(seed), fail_from.unwrap_or(u64::MAX)); let r = mc::guarded(f); control::install(Source::System, u64::MAX); r }).join()).and_then(|r| r.map_err(|e| Box::new(e) as _))
}
pub fn run() {
    let modes = ["gcm", "ctr"];
    let head = |m: usize, c: &[u8]| c[..if m == 0 { 12 } else { 16 }].to_vec();
    let enc = |m: usize, len: usize| -> Option<Vec<u8>> { let k = [5u8; 32]; let msg = vec![1u8; len]; if m == 0 { encrypt_gcm(&k, &msg).ok() } else { encrypt_ctr(&k, &msg).ok() } };
    explore("history", "call histories of 64 and 2^13 (thorough 2^20) under controlled entropy: all nonces distinct, every bit takes both values, across 8 entropy seeds and message lengths", 0, |cx| {
        let m = cx.choose(2); let seed = cx.choose(8) as u64; let len = *cx.pick(&[0usize, 1, 16]);
        let n = if len != 0 { 64 } else { tier(1usize << 13, if seed == 0 { 1 << 20 } else { 1 << 14 }) };
        let r = fresh(seed, None, || (0..n).map(|_| enc(m, len).map(|c| head(m, &c))).collect::<Option<Vec<_>>>());
        let Ok(Some(v)) = r else { return cx.violation("nonce:error", format!("{} failed under good entropy", modes[m])) };
        cx.ops(n as u64); cx.traced();
        let d: HashSet<_> = v.iter().collect(); cx.state(&v[0]); cx.state(&v[n - 1]);
        cx.check(d.len() == n, "nonce:repeated", || format!("{}: {} distinct nonces in {} calls", modes[m], d.len(), n));
        for b in 0..v[0].len() * 8 { let ones = v.iter().filter(|x| x[b / 8] >> (b % 8) & 1 == 1).count(); cx.check(ones > 0 && ones < n, "nonce:constant-bit", || format!("{}: bit {} of the nonce is constant over {} calls", modes[m], b, n)); }
        // no bit is a copy (or complement) of another: each position carries entropy of its own
        if n >= 64 { for a in 0..v[0].len() * 8 { for b in 0..a { let eq = v.iter().take(256).filter(|x| (x[a / 8] >> (a % 8) & 1) == (x[b / 8] >> (b % 8) & 1)).count(); let t = v.len().min(256); cx.check(eq != 0 && eq != t, "nonce:linked-bits", || format!("{}: bits {} and {} always agree or always differ", modes[m], a, b)); } } }
        cx.sample(|| format!("{} x{}: {:02x?} {:02x?}", modes[m], n, v[0], v[1])); cx.outcome(modes[m]);
    });
    explore("entropy", "the first nonce of a process over 512 entropy values: all distinct, no constant bit; independent of key and message", 0, |cx| {
        let m = cx.choose(2); let n = tier(512, 8192);
        let v: Vec<Option<Vec<u8>>> = (0..n).map(|s| fresh(1000 + s as u64, None, || enc(m, 3)).ok().flatten().map(|c| head(m, &c))).collect();
        cx.ops(n as u64); cx.traced();
        if v.iter().any(|x| x.is_none()) { return cx.violation("nonce:error", format!("{} failed under good entropy", modes[m])); }
        let v: Vec<_> = v.into_iter().flatten().collect(); for x in &v { cx.state(x); }
        let d: HashSet<_> = v.iter().collect(); cx.check(d.len() == v.len(), "nonce:entropy-ignored", || format!("{}: {} distinct first nonces for {} entropy values", modes[m], d.len(), n));
        for b in 0..v[0].len() * 8 { let ones = v.iter().filter(|x| x[b / 8] >> (b % 8) & 1 == 1).count(); cx.check(ones > 0 && ones < v.len(), "nonce:constant-bit", || format!("{}: bit {} does not depend on the entropy", modes[m], b)); }
        cx.outcome(modes[m]);
    });
    explore("threads", "two threads with different entropy, alternating; no nonce is shared", 0, |cx| {
        let m = cx.choose(2); let a = fresh(7, None, || (0..200).map(|_| enc(m, 0)).collect::<Vec<_>>()); let b = fresh(8, None, || (0..200).map(|_| enc(m, 0)).collect::<Vec<_>>());
        cx.ops(400); cx.traced(); let (Ok(a), Ok(b)) = (a, b) else { return cx.violation("nonce:error", "failed".into()) };
        let h: HashSet<Vec<u8>> = a.iter().flatten().map(|c| head(m, c)).collect(); cx.check(!b.iter().flatten().any(|c| h.contains(&head(m, c))), "nonce:repeated", || format!("{}: two threads produced the same nonce", modes[m])); cx.outcome(modes[m]);
    });
    explore("failure", "entropy failing at the k-th draw, k = 0..4, over a history of 6 calls: a call that draws after the failure fails", 0, |cx| {
        let m = cx.choose(2); let k = cx.choose(5) as u64;
        let r = std::thread::scope(|s| s.spawn(|| { control::install(Source::Seeded(3), k); let v: Vec<(bool, u64)> = (0..6).map(|_| { let b = control::calls(); let ok = mc::guarded(|| enc(m, 4)).ok().flatten().is_some(); (ok, control::calls() - b) }).collect(); control::install(Source::System, u64::MAX); v }).join());
        let Ok(v) = r else { return cx.violation("nonce:error", "thread failed".into()) }; cx.ops(6); cx.traced(); cx.state(&(m, &v));
        let mut drawn = 0; for (i, (ok, d)) in v.iter().enumerate() { drawn += d; let failed = *d > 0 && drawn > k; cx.check(!(failed && *ok), "nonce:entropy-failure", || format!("{}: call {} succeeded although the entropy source failed", modes[m], i)); if drawn == *d && drawn == 0 { cx.violation("nonce:entropy-ignored", format!("{}: first call draws no entropy", modes[m])); } cx.outcome(if *ok { "ok" } else { "failed" }); }
    });
}
