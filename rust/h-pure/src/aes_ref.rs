//! AES-256, GCM and CTR written from FIPS 197 / SP 800-38D, independent of the crates under use.
fn xt(a: u8) -> u8 { (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 } }
fn mul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 != 0 { r ^= a } a = xt(a); b >>= 1; } r }
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| { let mut s = [0u8; 256]; for i in 0..256usize {
        let inv = if i == 0 { 0 } else { (1..=255u8).find(|j| mul(i as u8, *j) == 1).unwrap() };
        s[i] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63; } s })
}
pub struct Aes { k: [[u8; 16]; 15] }
impl Aes {
    pub fn new(key: &[u8; 32]) -> Self {
        let s = sbox(); let mut w = [[0u8; 4]; 60]; for i in 0..8 { w[i].copy_from_slice(&key[4 * i..4 * i + 4]); }
        let mut rc = 1u8;
        for i in 8..60 { let mut t = w[i - 1]; if i % 8 == 0 { t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]]; rc = xt(rc); } else if i % 8 == 4 { for x in &mut t { *x = s[*x as usize]; } } for j in 0..4 { w[i][j] = w[i - 8][j] ^ t[j]; } }
        let mut k = [[0u8; 16]; 15]; for r in 0..15 { for j in 0..16 { k[r][j] = w[4 * r + j / 4][j % 4]; } } Aes { k }
    }
    pub fn block(&self, b: [u8; 16]) -> [u8; 16] {
        let s = sbox(); let mut x = b; for j in 0..16 { x[j] ^= self.k[0][j]; }
        for r in 1..15 {
            let mut y = [0u8; 16]; for c in 0..4 { for i in 0..4 { y[4 * c + i] = s[x[4 * ((c + i) % 4) + i] as usize]; } }
            if r < 14 { for c in 0..4 { let a = [y[4 * c], y[4 * c + 1], y[4 * c + 2], y[4 * c + 3]]; for i in 0..4 { y[4 * c + i] = xt(a[i]) ^ (xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4]) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4]; } } }
            for j in 0..16 { x[j] = y[j] ^ self.k[r][j]; }
        }
        x
    }
    /// counter mode; the counter is the last `n` bytes, big endian, wrapping
    pub fn ctr(&self, iv: [u8; 16], n: usize, data: &[u8]) -> Vec<u8> {
        let mut c = iv; let mut out = Vec::with_capacity(data.len());
        for ch in data.chunks(16) { let k = self.block(c); out.extend(ch.iter().zip(k).map(|(a, b)| a ^ b)); for i in (16 - n..16).rev() { c[i] = c[i].wrapping_add(1); if c[i] != 0 { break; } } }
        out
    }
    fn tag(&self, nonce: &[u8; 12], ct: &[u8]) -> [u8; 16] {
        let h = u128::from_be_bytes(self.block([0; 16])); let mut y = 0u128;
        let mut step = |b: &[u8]| { let mut p = [0u8; 16]; p[..b.len()].copy_from_slice(b); y = gmul(y ^ u128::from_be_bytes(p), h); };
        for c in ct.chunks(16) { step(c); }
        step(&((ct.len() as u128) * 8).to_be_bytes());
        let mut j = [0u8; 16]; j[..12].copy_from_slice(nonce); j[15] = 1;
        (y ^ u128::from_be_bytes(self.block(j))).to_be_bytes()
    }
    pub fn gcm(&self, nonce: &[u8; 12], msg: &[u8]) -> Vec<u8> { let mut j = [0u8; 16]; j[..12].copy_from_slice(nonce); j[15] = 2; let mut c = self.ctr(j, 4, msg); let t = self.tag(nonce, &c); c.extend(t); c }
}
fn gmul(x: u128, h: u128) -> u128 { let mut z = 0u128; let mut v = h; for i in 0..128 { if x >> (127 - i) & 1 == 1 { z ^= v } v = (v >> 1) ^ if v & 1 == 1 { 0xe1u128 << 120 } else { 0 }; } z }
pub fn self_test() {
    let hx = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let k: [u8; 32] = hx("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f").try_into().unwrap();
    assert_eq!(Aes::new(&k).block(hx("00112233445566778899aabbccddeeff").try_into().unwrap()).to_vec(), hx("8ea2b7ca516745bfeafc49904b496089"));
    // GCM specification, test cases 13 and 14
    assert_eq!(Aes::new(&[0; 32]).gcm(&[0; 12], &[]), hx("530f8afbc74536b9a963b4f1c4cb738b"));
    assert_eq!(Aes::new(&[0; 32]).gcm(&[0; 12], &[0; 16]), hx("cea7403d4d606b6e074ec5d3baf39d18d0d1c8a799996bf0265b98b5d48ab919"));
}
