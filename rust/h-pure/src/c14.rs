//! AES helpers honour their format and contract (Rust).
use crate::aes_ref::{self_test, Aes};
use mc::formats::coef;
use mc::{explore, tier, Ctx};
use pure_cli::crypto::*;

fn key(i: usize) -> [u8; 32] { match i { 0 => *b"0123456789abcdef0123456789ABCDEF", 1 => [0; 32], 2 => [255; 32], i if i < 259 => { let mut k = [0; 32]; k[(i - 3) / 8] = 1 << ((i - 3) % 8); k } i => coef(32, i as u64).try_into().unwrap() } }
fn got<T>(cx: &mut Ctx, what: &str, r: Result<anyhow_like::R<T>, String>) -> Option<T> { match r { Ok(Ok(v)) => Some(v), Ok(Err(e)) => { cx.violation("crypto:error", format!("{}: {:?}", what, e)); None } Err(e) => { cx.violation("crypto:panic", format!("{}: panic {}", what, e)); None } } }
mod anyhow_like { pub type R<T> = Result<T, String>; }
fn s<T>(r: Result<T, impl std::fmt::Display>) -> Result<T, String> { r.map_err(|e| e.to_string()) }
fn gcm(cx: &mut Ctx, k: [u8; 32], m: &[u8]) {
    let r = cx.call(|| s(encrypt_gcm(&k, m))); cx.traced();
    let Some(c) = got(cx, "encrypt_gcm", r) else { return };
    if !cx.check(c.len() == 28 + m.len(), "gcm:layout", || format!("{} bytes for a message of {}", c.len(), m.len())) { return; }
    let want = Aes::new(&k).gcm(c[..12].try_into().unwrap(), m);
    cx.check(c[12..] == want[..], "gcm:standard", || format!("not AES-256-GCM of the message ({} bytes)", m.len()));
    let r = cx.call(|| s(decrypt_gcm(&k, &c))); if let Some(d) = got(cx, "decrypt_gcm", r) { cx.check(d == m, "gcm:roundtrip", || format!("{} bytes came back for {}", d.len(), m.len())); }
    cx.state(&(k, m.len(), m.first().copied())); cx.outcome("gcm");
}
fn ctr(cx: &mut Ctx, k: [u8; 32], m: &[u8]) {
    let r = cx.call(|| s(encrypt_ctr(&k, m))); cx.traced();
    let Some(c) = got(cx, "encrypt_ctr", r) else { return };
    if !cx.check(c.len() == 16 + m.len(), "ctr:layout", || format!("{} bytes for a message of {}", c.len(), m.len())) { return; }
    let want = Aes::new(&k).ctr(c[..16].try_into().unwrap(), 8, m);
    cx.check(c[16..] == want[..], "ctr:standard", || format!("not AES-256-CTR of the message ({} bytes)", m.len()));
    let r = cx.call(|| s(decrypt_ctr(&k, &c))); if let Some(d) = got(cx, "decrypt_ctr", r) { cx.check(d == m, "ctr:roundtrip", || format!("{} bytes came back for {}", d.len(), m.len())); }
    cx.state(&(k, m.len(), m.first().copied())); cx.outcome("ctr");
}
pub fn run() {
    self_test();
    let mut lens: Vec<usize> = (0..=tier(150, 700)).collect(); for p in [256usize, 512, 1024, 4096, 8192, 16_384, 65_536, 1 << 20] { lens.extend([p - 17, p - 16, p - 15, p - 1, p, p + 1, p + 15, p + 16, p + 17]); }
    if mc::thorough() { lens.extend([1 << 22, (1 << 22) + 1, (1 << 24) + 5]); }
    explore("length", "every message length 0..150 (thorough 700) and block boundaries to 1 MiB (16 MiB), both modes, 3 contents", 0, |cx| {
        let n = *cx.pick(&lens); let mode = cx.choose(2); let k = cx.choose(3);
        if n > 70_000 && k != 0 { return; }
        let m = match k { 0 => coef(n, n as u64), 1 => vec![0; n], _ => vec![255; n] };
        cx.sample(|| format!("{} bytes", n));
        if mode == 0 { gcm(cx, key(0), &m) } else { ctr(cx, key(0), &m) }
    });
    explore("key", "256 single-bit keys, all-zero, all-one, and 64 mixed keys, both modes, messages of 0, 1, 16, 33 bytes", 0, |cx| {
        let k = key(cx.choose(323)); let n = *cx.pick(&[0usize, 1, 16, 33]); if cx.flag() { gcm(cx, k, &coef(n, 5)) } else { ctr(cx, k, &coef(n, 5)) }
    });
    explore("bytes", "every single-byte message in a 17-byte frame position", 0, |cx| { let v = cx.choose(256) as u8; let at = *cx.pick(&[0usize, 1, 15, 16]); let mut m = vec![7u8; 17]; m[at] = v; if cx.flag() { gcm(cx, key(300), &m) } else { ctr(cx, key(300), &m) } });
    // known nonces and IVs: decryption is the standard's inverse
    explore("decrypt-gcm", "decryption of independently made ciphertexts, nonces over one-hot and boundary patterns", 0, |cx| {
        let i = cx.choose(100); let mut nonce = [0u8; 12]; if i < 96 { nonce[i / 8] = 1 << (i % 8) } else { nonce = [[0u8; 12], [255; 12], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], [0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 254]][i - 96]; }
        let n = *cx.pick(&[0usize, 1, 15, 16, 17, 31, 32, 33, 1000]); let k = key(cx.choose(3)); let m = coef(n, i as u64);
        let mut d = nonce.to_vec(); d.extend(Aes::new(&k).gcm(&nonce, &m));
        let r = cx.call(|| s(decrypt_gcm(&k, &d))); cx.traced(); if let Some(g) = got(cx, "decrypt_gcm of a standard ciphertext", r) { cx.check(g == m, "gcm:standard", || "decrypts a standard ciphertext to something else".into()); } cx.outcome("gcm"); cx.state(&d);
    });
    explore("decrypt-ctr", "IVs at every counter wrap-around within 64 blocks, messages across the wrap", 0, |cx| {
        let b = *cx.pick(&[[0u8; 16], [255; 16], [1; 16]]); let near = cx.choose(70); let w = *cx.pick(&[1usize, 2, 4, 7, 8]); let n = *cx.pick(&[0usize, 1, 16, 17, 160, 1100]); let k = key(cx.choose(2));
        let mut iv = b; for x in &mut iv[16 - w..] { *x = 255; } let v = u128::from_be_bytes(iv).wrapping_sub(near as u128); let hi = iv; iv = v.to_be_bytes(); iv[..8].copy_from_slice(&hi[..8]);
        let m = coef(n, near as u64); let mut d = iv.to_vec(); d.extend(Aes::new(&k).ctr(iv, 8, &m));
        let r = cx.call(|| s(decrypt_ctr(&k, &d))); cx.traced(); if let Some(g) = got(cx, "decrypt_ctr", r) { cx.check(g == m, "ctr:standard", || format!("IV {:02x?}: decrypts to something else", iv)); } cx.outcome("ctr"); cx.state(&d);
    });
    explore("key-length", "every key length 0..80 and larger, all four functions", 0, |cx| {
        let n = *cx.pick(&(0..=80).chain([127, 128, 255, 256, 257, 288, 65_568]).collect::<Vec<usize>>()); let f = cx.choose(4); let len = *cx.pick(&[0usize, 1, 15, 16, 27, 28, 29, 44, 100]); if n == 32 { return; }
        let (k, m) = (vec![3u8; n], vec![1u8; len]);
        let r = cx.call(|| match f { 0 => encrypt_gcm(&k, &m).is_ok(), 1 => decrypt_gcm(&k, &m).is_ok(), 2 => encrypt_ctr(&k, &m).is_ok(), _ => decrypt_ctr(&k, &m).is_ok() });
        cx.traced(); cx.state(&(n, f)); cx.check(r == Ok(false), "crypto:key-length", || format!("function {} with a key of {} bytes: {:?}", f, n, r)); cx.outcome("refused");
    });
    explore("short", "every input shorter than the fixed overhead", 0, |cx| {
        let k = key(0); let g = cx.flag(); let n = cx.choose(if g { 28 } else { 16 }); let fill = *cx.pick(&[0u8, 1, 255]); let d = vec![fill; n];
        let r = cx.call(|| if g { decrypt_gcm(&k, &d).is_ok() } else { decrypt_ctr(&k, &d).is_ok() });
        cx.traced(); cx.state(&d); cx.check(r == Ok(false), "crypto:short", || format!("{} bytes: {:?}", n, r)); cx.outcome("refused");
    });
    explore("wrong-key", "every single-bit change of the key, and cut or extended ciphertexts, never decrypt authenticated data", 0, |cx| {
        let k = key(cx.choose(2)); let n = *cx.pick(&[0usize, 1, 16, 40]); let mut d = [9u8; 12].to_vec(); d.extend(Aes::new(&k).gcm(&[9; 12], &coef(n, 1)));
        let i = cx.choose(256 + d.len() * 8 + d.len() + 1); let mut k2 = k; let what;
        if i < 256 { k2[i / 8] ^= 1 << (i % 8); what = "key bit" } else if i < 256 + d.len() * 8 { d[(i - 256) / 8] ^= 1 << (i % 8); what = "ciphertext bit" } else { let j = i - 256 - d.len() * 8; if j < d.len() { d.truncate(j); what = "cut" } else { d.push(0); what = "extended" } }
        let r = cx.call(|| decrypt_gcm(&k2, &d).is_ok()); cx.traced(); cx.state(&(k2, &d)); cx.check(r == Ok(false), "gcm:forged", || format!("{} changed, {} bytes: {:?}", what, n, r)); cx.outcome("refused");
    });
}
