//! Stand-in for getrandom 0.2 whose answers the explorer decides: per thread, either the real
//! system source, a scripted stream, or failure from the n-th call on. Every draw is logged.
use std::cell::RefCell;
use std::fmt;
use std::num::NonZeroU32;
#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);
const fn e(n: u32) -> Error { match NonZeroU32::new(n) { Some(x) => Error(x), None => panic!() } }
impl Error {
    pub const UNSUPPORTED: Error = e(Self::INTERNAL_START);
    pub const ERRNO_NOT_POSITIVE: Error = e(Self::INTERNAL_START + 1);
    pub const UNEXPECTED: Error = e(Self::INTERNAL_START + 2);
    pub const FAILED_RDRAND: Error = e(Self::INTERNAL_START + 5);
    pub const NO_RDRAND: Error = e(Self::INTERNAL_START + 6);
    pub const WEB_CRYPTO: Error = e(Self::INTERNAL_START + 7);
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> { if self.0.get() < Self::INTERNAL_START { Some(self.0.get() as i32) } else { None } }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Error({})", self.0) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "entropy error {}", self.0) } }
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error { fn from(c: NonZeroU32) -> Self { Error(c) } }
impl From<Error> for std::io::Error { fn from(e: Error) -> Self { match e.raw_os_error() { Some(c) => std::io::Error::from_raw_os_error(c), None => std::io::Error::new(std::io::ErrorKind::Other, e) } } }

pub mod control {
    use super::*;
    #[derive(Clone, Debug)]
    pub enum Source {
        /// the operating system
        System,
        /// the stream produced by this generator state, one byte at a time
        Seeded(u64),
        /// these bytes, then failure
        Script(Vec<u8>),
    }
    pub struct State { pub source: Source, pub pos: u64, pub calls: u64, pub fail_from: u64, pub log: Vec<Vec<u8>>, pub flip: Option<(u64, u8)>, pub logging: bool }
    thread_local! { static ST: RefCell<State> = RefCell::new(State { source: Source::System, pos: 0, calls: 0, fail_from: u64::MAX, log: vec![], flip: None, logging: true }); }
    /// Install a source for this thread. `fail_from`: index of the first call that fails.
    pub fn install(source: Source, fail_from: u64) { ST.with(|s| { let mut s = s.borrow_mut(); *s = State { source, pos: 0, calls: 0, fail_from, log: vec![], flip: None, logging: true }; }) }
    /// XOR the byte at stream position `pos` with `mask`.
    pub fn flip(pos: u64, mask: u8) { ST.with(|s| s.borrow_mut().flip = Some((pos, mask))) }
    pub fn set_logging(on: bool) { ST.with(|s| s.borrow_mut().logging = on) }
    pub fn calls() -> u64 { ST.with(|s| s.borrow().calls) }
    pub fn bytes_drawn() -> u64 { ST.with(|s| s.borrow().pos) }
    pub fn log() -> Vec<Vec<u8>> { ST.with(|s| s.borrow().log.clone()) }
    fn byte(seed: u64, pos: u64) -> u8 {
        let mut z = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((pos / 8 + 1).wrapping_mul(0xD1B54A32D192ED03));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^= z >> 31;
        z.to_le_bytes()[(pos % 8) as usize]
    }
    pub(crate) fn fill(dest: &mut [u8]) -> Result<(), Error> {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let n = s.calls; s.calls += 1;
            if n >= s.fail_from { return Err(Error::UNEXPECTED); }
            let p0 = s.pos;
            match &s.source {
                Source::System => {
                    let mut off = 0;
                    while off < dest.len() {
                        let r = unsafe { libc::getrandom(dest[off..].as_mut_ptr() as *mut _, dest.len() - off, 0) };
                        if r <= 0 { return Err(Error::UNEXPECTED); }
                        off += r as usize;
                    }
                }
                Source::Seeded(seed) => { let seed = *seed; for (i, d) in dest.iter_mut().enumerate() { *d = byte(seed, p0 + i as u64); } }
                Source::Script(b) => {
                    if p0 as usize + dest.len() > b.len() { return Err(Error::UNEXPECTED); }
                    dest.copy_from_slice(&b[p0 as usize..p0 as usize + dest.len()]);
                }
            }
            if let Some((p, m)) = s.flip { if p >= p0 && p < p0 + dest.len() as u64 { dest[(p - p0) as usize] ^= m; } }
            s.pos += dest.len() as u64;
            if s.logging { let v = dest.to_vec(); s.log.push(v); }
            Ok(())
        })
    }
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> { if dest.is_empty() { return Ok(()); } control::fill(dest) }
pub fn getrandom_uninit(dest: &mut [std::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for d in dest.iter_mut() { d.write(0); }
    let s = unsafe { std::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()) };
    getrandom(s)?; Ok(s)
}
#[macro_export]
macro_rules! register_custom_getrandom { ($p:path) => {}; }
