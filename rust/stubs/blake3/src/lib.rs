//! Stand-in for the blake3 crate: a plain implementation of BLAKE3 (after the reference
//! implementation in the specification), with the crate's usual interface.
use std::fmt;
pub const OUT_LEN: usize = 32;
pub const KEY_LEN: usize = 32;
pub const BLOCK_LEN: usize = 64;
pub const CHUNK_LEN: usize = 1024;
const CHUNK_START: u32 = 1; const CHUNK_END: u32 = 2; const PARENT: u32 = 4; const ROOT: u32 = 8;
const KEYED_HASH: u32 = 16; const DERIVE_KEY_CONTEXT: u32 = 32; const DERIVE_KEY_MATERIAL: u32 = 64;
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, mx: u32, my: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(mx); s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(my); s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_right(7);
}
fn compress(cv: &[u32; 8], block: &[u32; 16], counter: u64, len: u32, flags: u32) -> [u32; 16] {
    let mut s = [cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3], counter as u32, (counter >> 32) as u32, len, flags];
    let mut m = *block;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]); g(&mut s, 1, 5, 9, 13, m[2], m[3]); g(&mut s, 2, 6, 10, 14, m[4], m[5]); g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]); g(&mut s, 1, 6, 11, 12, m[10], m[11]); g(&mut s, 2, 7, 8, 13, m[12], m[13]); g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 { let mut p = [0; 16]; for i in 0..16 { p[i] = m[PERM[i]]; } m = p; }
    }
    for i in 0..8 { s[i] ^= s[i + 8]; s[i + 8] ^= cv[i]; }
    s
}
fn words(b: &[u8]) -> [u32; 16] { let mut w = [0; 16]; let mut p = [0u8; 64]; p[..b.len()].copy_from_slice(b); for i in 0..16 { w[i] = u32::from_le_bytes(p[4 * i..4 * i + 4].try_into().unwrap()); } w }
fn cv_of(s: [u32; 16]) -> [u32; 8] { s[..8].try_into().unwrap() }
#[derive(Clone)]
struct Output { cv: [u32; 8], block: [u32; 16], counter: u64, len: u32, flags: u32 }
impl Output {
    fn chain(&self) -> [u32; 8] { cv_of(compress(&self.cv, &self.block, self.counter, self.len, self.flags)) }
    fn root(&self, pos: u64, out: &mut [u8]) {
        let mut at = pos;
        for o in out.iter_mut() { let w = compress(&self.cv, &self.block, at / 64, self.len, self.flags | ROOT); *o = w[(at % 64) as usize / 4].to_le_bytes()[(at % 4) as usize]; at += 1; }
    }
}
fn chunk_output(key: &[u32; 8], data: &[u8], counter: u64, flags: u32) -> Output {
    let mut cv = *key; let n = ((data.len() + 63) / 64).max(1);
    for i in 0..n {
        let b = &data[64 * i..data.len().min(64 * (i + 1))];
        let f = flags | if i == 0 { CHUNK_START } else { 0 } | if i == n - 1 { CHUNK_END } else { 0 };
        let o = Output { cv, block: words(b), counter, len: b.len() as u32, flags: f };
        if i == n - 1 { return o; }
        cv = o.chain();
    }
    unreachable!()
}
fn parent(l: [u32; 8], r: [u32; 8], key: &[u32; 8], flags: u32) -> Output { let mut block = [0; 16]; block[..8].copy_from_slice(&l); block[8..].copy_from_slice(&r); Output { cv: *key, block, counter: 0, len: 64, flags: flags | PARENT } }
fn tree(key: &[u32; 8], data: &[u8], counter: u64, flags: u32) -> Output {
    if data.len() <= 1024 { return chunk_output(key, data, counter, flags); }
    let chunks = (data.len() + 1023) / 1024; let left = if chunks.is_power_of_two() { chunks / 2 } else { chunks.next_power_of_two() / 2 };
    let (l, r) = data.split_at(left * 1024);
    parent(tree(key, l, counter, flags).chain(), tree(key, r, counter + left as u64, flags).chain(), key, flags)
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);
impl Hash {
    pub const fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub const fn from_bytes(b: [u8; 32]) -> Self { Hash(b) }
    pub fn as_slice(&self) -> &[u8] { &self.0 }
    pub fn to_hex(&self) -> String { self.0.iter().map(|b| format!("{:02x}", b)).collect() }
}
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> Self { h.0 } }
impl From<[u8; 32]> for Hash { fn from(h: [u8; 32]) -> Self { Hash(h) } }
impl PartialEq<[u8; 32]> for Hash { fn eq(&self, o: &[u8; 32]) -> bool { &self.0 == o } }
impl fmt::Display for Hash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.to_hex()) } }
impl fmt::Debug for Hash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Hash({})", self.to_hex()) } }
#[derive(Clone)]
pub struct Hasher { key: [u32; 8], flags: u32, buf: Vec<u8> }
fn kw(k: &[u8; 32]) -> [u32; 8] { let mut w = [0; 8]; for i in 0..8 { w[i] = u32::from_le_bytes(k[4 * i..4 * i + 4].try_into().unwrap()); } w }
impl Hasher {
    pub fn new() -> Self { Hasher { key: IV, flags: 0, buf: vec![] } }
    pub fn new_keyed(k: &[u8; 32]) -> Self { Hasher { key: kw(k), flags: KEYED_HASH, buf: vec![] } }
    pub fn new_derive_key(context: &str) -> Self {
        let mut ck = [0u8; 32]; tree(&IV, context.as_bytes(), 0, DERIVE_KEY_CONTEXT).root(0, &mut ck);
        Hasher { key: kw(&ck), flags: DERIVE_KEY_MATERIAL, buf: vec![] }
    }
    pub fn update(&mut self, d: &[u8]) -> &mut Self { self.buf.extend_from_slice(d); self }
    pub fn reset(&mut self) -> &mut Self { self.buf.clear(); self }
    pub fn count(&self) -> u64 { self.buf.len() as u64 }
    pub fn finalize(&self) -> Hash { let mut o = [0; 32]; tree(&self.key, &self.buf, 0, self.flags).root(0, &mut o); Hash(o) }
    pub fn finalize_xof(&self) -> OutputReader { OutputReader { o: tree(&self.key, &self.buf, 0, self.flags), pos: 0 } }
}
impl Default for Hasher { fn default() -> Self { Self::new() } }
impl std::io::Write for Hasher { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.update(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
#[derive(Clone)]
pub struct OutputReader { o: Output, pos: u64 }
impl OutputReader { pub fn fill(&mut self, b: &mut [u8]) { self.o.root(self.pos, b); self.pos += b.len() as u64; } pub fn position(&self) -> u64 { self.pos } pub fn set_position(&mut self, p: u64) { self.pos = p } }
impl std::io::Read for OutputReader { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.fill(b); Ok(b.len()) } }
pub fn hash(d: &[u8]) -> Hash { Hasher::new().update(d).finalize() }
pub fn keyed_hash(k: &[u8; 32], d: &[u8]) -> Hash { Hasher::new_keyed(k).update(d).finalize() }
pub fn derive_key(context: &str, d: &[u8]) -> [u8; 32] { Hasher::new_derive_key(context).update(d).finalize().0 }
#[cfg(test)]
mod tests {
    #[test]
    fn vectors() {
        // official test vectors: input byte i is i mod 251
        let inp = |n: usize| (0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>();
        assert_eq!(super::hash(b"").to_hex(), "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262");
        assert_eq!(super::hash(&inp(1)).to_hex(), "2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213");
        assert_eq!(super::hash(&inp(1023)).to_hex(), "10108970eeda3eb932baac1428c7a2163b0e924c9a9e25b35bba72b28f70bd11");
        assert_eq!(super::hash(&inp(1024)).to_hex(), "42214739f095a406f3fc83deb889744ac00df831c10daa55189b5d121c855af7");
        assert_eq!(super::hash(&inp(1025)).to_hex(), "d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444");
    }
}
