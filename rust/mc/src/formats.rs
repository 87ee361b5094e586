//! Builders and strict reference readers of the file formats, written from the format
//! descriptions and independent of the code under check.
pub type Lc = Vec<(u32, Vec<u8>)>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct R1cs {
    pub field_size: u32, pub prime: Vec<u8>, pub n_wires: u32, pub n_pub_out: u32, pub n_pub_in: u32, pub n_prv_in: u32,
    pub n_labels: u64, pub constraints: Vec<[Lc; 3]>, pub labels: Option<Vec<u64>>,
}
pub const BN254: &str = "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
pub fn bn254_prime_le() -> Vec<u8> { let mut v: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&BN254[2 * i..2 * i + 2], 16).unwrap()).collect(); v.reverse(); v }
pub fn u32le(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_le_bytes()) }
pub fn u64le(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&x.to_le_bytes()) }
impl R1cs {
    pub fn header_bytes(&self) -> Vec<u8> {
        let mut v = vec![]; u32le(&mut v, self.field_size); v.extend_from_slice(&self.prime);
        u32le(&mut v, self.n_wires); u32le(&mut v, self.n_pub_out); u32le(&mut v, self.n_pub_in); u32le(&mut v, self.n_prv_in); u64le(&mut v, self.n_labels); u32le(&mut v, self.constraints.len() as u32); v
    }
    pub fn constraint_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for c in &self.constraints { for lc in c { u32le(&mut v, lc.len() as u32); for (w, k) in lc { u32le(&mut v, *w); v.extend_from_slice(k); } } }
        v
    }
    pub fn label_bytes(&self) -> Vec<u8> { let mut v = vec![]; for l in self.labels.as_ref().unwrap() { u64le(&mut v, *l) } v }
    /// The sections a circom compiler writes, in its order.
    pub fn sections(&self) -> Vec<(u32, Vec<u8>)> {
        let mut s = vec![(1, self.header_bytes()), (2, self.constraint_bytes())];
        if self.labels.is_some() { s.push((3, self.label_bytes())); }
        s
    }
    pub fn bytes(&self) -> Vec<u8> { container(b"r1cs", 1, &self.sections()) }
}
pub fn container(magic: &[u8; 4], version: u32, sections: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut v = magic.to_vec(); u32le(&mut v, version); u32le(&mut v, sections.len() as u32);
    for (t, b) in sections { u32le(&mut v, *t); u64le(&mut v, b.len() as u64); v.extend_from_slice(b); }
    v
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict<T> {
    /// encodes exactly this
    Valid(T),
    /// a fault, which no reader that interprets this part of the file may accept
    Invalid(&'static str),
    /// the format leaves open what this means
    Open(&'static str),
}
struct Rd<'a> { b: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    fn take(&mut self, n: u64) -> Option<&'a [u8]> { if n > (self.b.len() - self.p) as u64 { return None; } let s = &self.b[self.p..self.p + n as usize]; self.p += n as usize; Some(s) }
    fn u32(&mut self) -> Option<u32> { self.take(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())) }
    fn u64(&mut self) -> Option<u64> { self.take(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) }
}
pub struct Container<'a> { pub sections: Vec<(u32, &'a [u8])>, pub trailing: usize }
pub fn read_container<'a>(b: &'a [u8], magic: &[u8; 4], version: u32) -> Result<Container<'a>, &'static str> {
    let mut r = Rd { b, p: 0 };
    if r.take(4).ok_or("cut:magic")? != magic { return Err("magic"); }
    if r.u32().ok_or("cut:version")? != version { return Err("version"); }
    let n = r.u32().ok_or("cut:section-count")?;
    let mut sections = vec![];
    for _ in 0..n { let t = r.u32().ok_or("cut:section-type")?; let l = r.u64().ok_or("cut:section-size")?; sections.push((t, r.take(l).ok_or("cut:section-body")?)); }
    Ok(Container { sections, trailing: b.len() - r.p })
}
fn the<'a>(c: &Container<'a>, t: u32) -> Result<Option<&'a [u8]>, ()> { let v: Vec<_> = c.sections.iter().filter(|s| s.0 == t).collect(); match v.len() { 0 => Ok(None), 1 => Ok(Some(v[0].1)), _ => Err(()) } }
/// `labels`: also judge the wire-to-label section.
pub fn read_r1cs(b: &[u8], labels: bool) -> Verdict<R1cs> {
    use Verdict::*;
    let c = match read_container(b, b"r1cs", 1) { Ok(c) => c, Err(e) => return Invalid(e) };
    let (h, k, l) = match (the(&c, 1), the(&c, 2), the(&c, 3)) { (Ok(h), Ok(k), Ok(l)) => (h, k, l), _ => return Open("repeated section") };
    let Some(h) = h else { return Invalid("missing header") };
    let Some(k) = k else { return Invalid("missing constraints") };
    let mut r = Rd { b: h, p: 0 };
    let mut hd = || -> Option<(R1cs, u32)> {
        let fs = r.u32()?; let prime = r.take(fs as u64)?.to_vec();
        let m = R1cs { field_size: fs, prime, n_wires: r.u32()?, n_pub_out: r.u32()?, n_pub_in: r.u32()?, n_prv_in: r.u32()?, n_labels: r.u64()?, constraints: vec![], labels: None };
        let n = r.u32()?; Some((m, n))
    };
    let Some((mut m, n)) = hd() else { return Invalid("header exceeds its section") };
    let slack_h = r.p != h.len();
    if m.n_pub_out as u64 + m.n_pub_in as u64 + 1 > m.n_wires as u64 { return Invalid("more public signals than wires"); }
    if m.field_size == 0 { return Open("empty field"); }
    let mut r = Rd { b: k, p: 0 };
    for _ in 0..n {
        let mut c: [Lc; 3] = Default::default();
        for lc in c.iter_mut() {
            let Some(f) = r.u32() else { return Invalid("constraints exceed their section") };
            for _ in 0..f {
                let (Some(w), Some(v)) = (r.u32(), r.take(m.field_size as u64)) else { return Invalid("constraints exceed their section") };
                if w >= m.n_wires { return Invalid("wire number out of range"); }
                lc.push((w, v.to_vec()));
            }
        }
        m.constraints.push(c);
    }
    let slack_k = r.p != k.len();
    if let Some(l) = l { if labels {
        if (l.len() as u64) < 8 * m.n_wires as u64 { return Invalid("labels exceed their section"); }
        m.labels = Some(l[..8 * m.n_wires as usize].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect());
    } }
    let _ = (slack_h, slack_k, c.trailing);
    Valid(m)
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Wtns { pub n8: u32, pub prime: Vec<u8>, pub values: Vec<Vec<u8>> }
impl Wtns {
    pub fn header_bytes(&self) -> Vec<u8> { let mut v = vec![]; u32le(&mut v, self.n8); v.extend_from_slice(&self.prime); u32le(&mut v, self.values.len() as u32); v }
    pub fn sections(&self) -> Vec<(u32, Vec<u8>)> { vec![(1, self.header_bytes()), (2, self.values.concat())] }
    pub fn bytes(&self) -> Vec<u8> { container(b"wtns", 2, &self.sections()) }
}
pub fn read_wtns(b: &[u8]) -> Verdict<Wtns> {
    use Verdict::*;
    let c = match read_container(b, b"wtns", 2) { Ok(c) => c, Err(e) => return Invalid(e) };
    let (h, d) = match (the(&c, 1), the(&c, 2)) { (Ok(h), Ok(d)) => (h, d), _ => return Open("repeated section") };
    let Some(h) = h else { return Invalid("missing header") };
    let Some(d) = d else { return Invalid("missing values") };
    let mut r = Rd { b: h, p: 0 };
    let mut hd = || -> Option<(u32, Vec<u8>, u32)> { let n8 = r.u32()?; let p = r.take(n8 as u64)?.to_vec(); Some((n8, p, r.u32()?)) };
    let Some((n8, prime, n)) = hd() else { return Invalid("header exceeds its section") };
    if n8 == 0 { return Open("empty field"); }
    if (d.len() as u64) != n8 as u64 * n as u64 { return Invalid("value count differs from header"); }
    Valid(Wtns { n8, prime, values: d.chunks(n8 as usize).map(|x| x.to_vec()).collect() })
}
/// Distinct, position-dependent bytes, so that any displaced byte shows.
pub fn coef(fs: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    (0..fs).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 32) as u8 }).collect()
}
