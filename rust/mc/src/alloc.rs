//! A counting allocator: peak bytes and largest request per thread while armed. Requests too big
//! to serve from the heap are served as untouched address space, so that an absurd reservation is
//! seen and reported instead of ending the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Counting;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
const BIG: usize = 256 << 20;
const MAX: usize = 1 << 44;
/// More than this at one time in an armed region ends the run as a violation.
const CAP: i64 = 2 << 30;
fn note(d: i64) {
    let over = ARMED.try_with(|a| a.get() && CUR.with(|c| { let v = c.get() + d; c.set(v); PEAK.with(|p| if v > p.get() { p.set(v) }); v > CAP }));
    if over == Ok(true) { let _ = ARMED.try_with(|a| a.set(false)); let n = CUR.with(|c| c.get()); crate::fatal_here("memory:excessive", format!("{} bytes allocated at one time", n)); }
}
unsafe fn big(l: Layout) -> *mut u8 {
    if l.size() > MAX {
        if ARMED.try_with(|a| a.replace(false)).unwrap_or(false) { crate::fatal_here("memory:unservable", format!("requested {} bytes at once", l.size())); }
        return std::ptr::null_mut();
    }
    let p = libc::mmap(std::ptr::null_mut(), l.size(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as i64); if l.size() >= BIG { big(l) } else { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as i64); if l.size() >= BIG { big(l) } else { System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as i64)); if l.size() >= BIG { libc::munmap(p as *mut _, l.size()); } else { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() < BIG && n < BIG { note(n as i64 - l.size() as i64); return System.realloc(p, l, n); }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}
/// Run `f`; also return the peak number of bytes it had allocated at one time.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    CUR.with(|c| c.set(0)); PEAK.with(|c| c.set(0));
    struct Disarm(bool);
    impl Drop for Disarm { fn drop(&mut self) { ARMED.with(|a| a.set(self.0)) } }
    let d = Disarm(ARMED.with(|a| a.replace(true)));
    let r = f();
    drop(d);
    (r, PEAK.with(|p| p.get()).max(0) as u64)
}
/// Run `f` under the memory cap, unless it is measured already.
pub fn watched<T>(f: impl FnOnce() -> T) -> T { if ARMED.with(|a| a.get()) { f() } else { peak(f).0 } }
