//! A stateless explicit-state explorer. A driver is a closure over a choice tree: each call of
//! `Ctx::choose` is a branching point, and the explorer runs the closure once for every path
//! (depth first, prefixes spread over worker threads), re-executing the real code from its initial
//! state each time. `Ctx::dev` is a branching point whose non-default answers are deviations; paths
//! with more deviations than the bound are not entered. Every violation carries the exact choice
//! list, which `replay` runs again.
pub mod alloc;
pub mod formats;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation { pub sig: String, pub msg: String, pub exploration: String, pub choices: Vec<(u32, u32)> }
#[derive(Default)]
pub struct Totals {
    pub executions: u64, pub transitions: u64, pub traces: u64, pub states: u64, pub outcomes: BTreeMap<String, u64>,
    pub bounds: Vec<String>, pub samples: Vec<String>, pub violations: Vec<Violation>, pub sig_counts: BTreeMap<String, u64>, pub capped: Vec<String>, pub max_depth: usize,
}
static TOTALS: Mutex<Option<Totals>> = Mutex::new(None);
static BEFORE: OnceLock<fn()> = OnceLock::new();
/// What every execution starts with, on its own thread (the entropy source, so that executions replay exactly).
pub fn before_each(f: fn()) { let _ = BEFORE.set(f); }
fn begin() { if let Some(f) = BEFORE.get() { f() } }
static CONF: OnceLock<Conf> = OnceLock::new();
#[derive(Clone)]
struct Conf { property: String, tier: String, out: String, replay: Option<(String, Vec<(u32, u32)>)>, start: Instant, deadline: Instant }

struct Live { started: Option<Instant>, exploration: String, choices: Vec<(u32, u32)> }
thread_local! {
    static LIVE: RefCell<Option<Arc<Mutex<Live>>>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CATCHING: Cell<u32> = const { Cell::new(0) };
}

pub struct Ctx {
    prefix: Vec<u32>, pub choices: Vec<(u32, u32)>, is_dev: Vec<bool>, devs: u32, dev_bound: u32,
    states: HashSet<u64>, transitions: u64, traces: u64, outcomes: BTreeMap<String, u64>, sample: String, violations: Vec<Violation>, exploration: String, live: Arc<Mutex<Live>>,
}
fn h<T: Hash + ?Sized>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
impl Ctx {
    fn branch(&mut self, n: usize, dev: bool) -> usize {
        assert!(n > 0, "choice among nothing");
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "replay diverged: choice {} of {} at depth {}", c, n, i);
        self.choices.push((n as u32, c));
        self.is_dev.push(dev);
        if dev && c != 0 { self.devs += 1; }
        self.live.lock().unwrap().choices.push((n as u32, c));
        c as usize
    }
    /// Branch over 0..n.
    pub fn choose(&mut self, n: usize) -> usize { self.branch(n, false) }
    /// Branch over 0..n where anything but 0 counts as one deviation.
    pub fn dev(&mut self, n: usize) -> usize { self.branch(n, true) }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.choose(xs.len()); &xs[i] }
    pub fn dev_pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.dev(xs.len()); &xs[i] }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    /// A permutation of 0..n.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> { let mut rest: Vec<usize> = (0..n).collect(); let mut out = vec![]; while !rest.is_empty() { let i = self.choose(rest.len()); out.push(rest.remove(i)); } out }
    /// Record a state reached (hashed in canonical form).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) { let x = h(&(&self.exploration, h(t))); self.states.insert(x); }
    /// Record operations executed on the real code.
    pub fn op(&mut self) { self.transitions += 1; }
    pub fn ops(&mut self, n: u64) { self.transitions += n; }
    /// Record an execution compared with the oracle.
    pub fn traced(&mut self) { self.traces += 1; }
    pub fn outcome(&mut self, s: &str) { if let Some(v) = self.outcomes.get_mut(s) { *v += 1 } else { self.outcomes.insert(s.to_string(), 1); } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.sample.is_empty() { self.sample = f(); } }
    pub fn violation(&mut self, sig: &str, msg: String) {
        self.violations.push(Violation { sig: sig.into(), msg, exploration: self.exploration.clone(), choices: self.choices.clone() });
    }
    pub fn check(&mut self, ok: bool, sig: &str, msg: impl FnOnce() -> String) -> bool { if !ok { let m = msg(); self.violation(sig, m); } ok }
    /// Run code under test; a panic becomes Err(message).
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> { self.transitions += 1; guarded(f) }
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(|| alloc::watched(f)));
    CATCHING.with(|c| c.set(c.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn thorough() -> bool { conf().tier == "thorough" }
pub fn tier<T>(quick: T, deep: T) -> T { if thorough() { deep } else { quick } }
fn conf() -> &'static Conf { CONF.get().expect("mc::main not entered") }
/// A scratch directory of this thread.
pub fn scratch() -> String {
    thread_local! { static D: String = {
        let d = format!("{}/t{}", scratch_root(), std::thread::current().id().as_u64_()); std::fs::create_dir_all(&d).unwrap(); d } }
    D.with(|d| d.clone())
}
/// A file that opens and truncates but takes no byte (like a full disk): a sealed memory file of this process, so that
/// nothing real can be replaced or removed through its path.
pub struct Full(i32);
impl Full {
    pub fn new() -> Full { let fd = unsafe { libc::memfd_create(c"full".as_ptr(), libc::MFD_ALLOW_SEALING | libc::MFD_CLOEXEC) }; assert!(fd >= 0 && unsafe { libc::fcntl(fd, libc::F_ADD_SEALS, libc::F_SEAL_GROW) } == 0, "no sealed memory file"); Full(fd) }
    pub fn path(&self) -> String { format!("/proc/{}/fd/{}", std::process::id(), self.0) }
}
impl Drop for Full { fn drop(&mut self) { unsafe { libc::close(self.0); } } }
pub fn scratch_root() -> String { std::env::var("MC_SCRATCH").unwrap_or_else(|_| format!("/tmp/mc-{}", std::process::id())) }
trait IdExt { fn as_u64_(&self) -> u64; }
impl IdExt for std::thread::ThreadId { fn as_u64_(&self) -> u64 { h(self) } }

/// Explore every path of `f` with at most `dev_bound` deviations.
pub fn explore(name: &str, bounds: &str, dev_bound: u32, f: impl Fn(&mut Ctx) + Sync) {
    let cf = conf();
    if let Some((n, choices)) = &cf.replay {
        if n != name { return; }
        let prefix: Vec<u32> = choices.iter().map(|c| c.1).collect();
        let live = Arc::new(Mutex::new(Live { started: None, exploration: name.into(), choices: vec![] }));
        LIVE.with(|l| *l.borrow_mut() = Some(live.clone()));
        let mut ctx = new_ctx(prefix, name, u32::MAX, live);
        begin(); f(&mut ctx);
        let got: Vec<(u32, u32)> = ctx.choices.clone();
        if got[..choices.len().min(got.len())] != choices[..choices.len().min(got.len())] { say(&format!("replay diverged: recorded {:?}, ran {:?}", choices, got)); std::process::exit(2); }
        say(&format!("replayed {} ({} choices): {}", name, got.len(), ctx.sample));
        for v in &ctx.violations { say(&format!("VIOLATED [{}] {}", v.sig, v.msg)); }
        if ctx.violations.is_empty() { say("no violation"); }
        let mut t = TOTALS.lock().unwrap(); let t = t.as_mut().unwrap();
        t.executions += 1; t.violations.extend(ctx.violations);
        return;
    }
    // (prefix up to a branching point, next alternative, number of alternatives)
    struct Work { stack: Vec<(Vec<u32>, u32, u32)>, busy: usize }
    let work = Mutex::new(Work { stack: vec![(vec![], 0, 1)], busy: 0 });
    let capped = Mutex::new(false);
    let nthreads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let lives: Mutex<Vec<Arc<Mutex<Live>>>> = Mutex::new(vec![]);
    let done = Mutex::new(false);
    let hang = Duration::from_secs(std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30));
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for _ in 0..nthreads {
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
                let live = Arc::new(Mutex::new(Live { started: None, exploration: name.into(), choices: vec![] }));
                lives.lock().unwrap().push(live.clone());
                LIVE.with(|l| *l.borrow_mut() = Some(live.clone()));
                let mut tot = Totals::default(); let mut states: HashSet<u64> = HashSet::new();
                loop {
                    let item = { let mut w = work.lock().unwrap();
                        match w.stack.pop() {
                            Some((p, alt, n)) => { if alt + 1 < n { w.stack.push((p.clone(), alt + 1, n)); } w.busy += 1; Some((p, alt, n)) }
                            None if w.busy == 0 => break,
                            None => None } };
                    let Some((mut p, alt, n)) = item else { std::thread::sleep(Duration::from_micros(50)); continue };
                    if Instant::now() > cf.deadline { *capped.lock().unwrap() = true; let mut w = work.lock().unwrap(); w.stack.clear(); w.busy -= 1; continue; }
                    if !(p.is_empty() && n == 1) { p.push(alt); }
                    let plen = p.len();
                    { let mut l = live.lock().unwrap(); l.started = Some(Instant::now()); l.choices.clear(); }
                    let mut ctx = new_ctx(p, name, dev_bound, live.clone());
                    let r = catch_unwind(AssertUnwindSafe(|| { begin(); f(&mut ctx); assert!(ctx.choices.len() >= plen, "replay diverged: shorter than its prefix"); }));
                    live.lock().unwrap().started = None;
                    if r.is_err() {
                        CATCHING.with(|c| c.set(0)); let m = LAST_PANIC.with(|p| p.borrow().clone());
                        // a panic of the code under test outside a guarded call is a finding; one of the harness is an error, but the rest is still explored
                        if m.contains("/packages/zkenc-") { ctx.violation("unexpected-panic", m); }
                        else { let mut e = ERRORS.lock().unwrap(); e.push(format!("{} {:?}: {}", name, ctx.choices, m)); if e.len() >= 200 { drop(e); *capped.lock().unwrap() = true; let mut w = work.lock().unwrap(); w.stack.clear(); w.busy -= 1; continue; } }
                        if ctx.choices.len() < plen { work.lock().unwrap().busy -= 1; for v in ctx.violations { let k = tot.sig_counts.entry(v.sig.clone()).or_default(); *k += 1; if *k <= 3 { tot.violations.push(v); } } continue; }
                    }
                    { let mut w = work.lock().unwrap();
                      let mut devs = 0;
                      for (i, (n, c)) in ctx.choices.iter().enumerate() {
                          if i >= plen && *n > 1 && !(ctx.is_dev[i] && devs >= dev_bound) { w.stack.push((ctx.choices[..i].iter().map(|x| x.1).collect(), 1, *n)); }
                          if ctx.is_dev[i] && *c != 0 { devs += 1; }
                      }
                      w.busy -= 1; }
                    tot.executions += 1; tot.transitions += ctx.transitions; tot.traces += ctx.traces; tot.max_depth = tot.max_depth.max(ctx.choices.len());
                    for (k, v) in ctx.outcomes { *tot.outcomes.entry(k).or_default() += v; }
                    states.extend(ctx.states);
                    if tot.samples.len() < 2 && !ctx.sample.is_empty() { tot.samples.push(ctx.sample); }
                    for v in ctx.violations { let k = tot.sig_counts.entry(v.sig.clone()).or_default(); *k += 1; if *k <= 3 { tot.violations.push(v); } }
                }
                distinct.lock().unwrap().extend(states.iter());
                let mut t = TOTALS.lock().unwrap(); let t = t.as_mut().unwrap();
                t.executions += tot.executions; t.transitions += tot.transitions; t.traces += tot.traces; t.max_depth = t.max_depth.max(tot.max_depth);
                for (k, v) in tot.outcomes { *t.outcomes.entry(k).or_default() += v; }
                for (k, v) in tot.sig_counts { *t.sig_counts.entry(k).or_default() += v; }
                for s in tot.samples { if t.samples.len() < 24 && t.samples.iter().filter(|x| x.starts_with(&format!("{}: ", name))).count() < 3 { t.samples.push(format!("{}: {}", name, s)); } }
                t.violations.extend(tot.violations);
            }).unwrap());
        }
        let watcher = sc.spawn(|| {
            while !*done.lock().unwrap() {
                std::thread::sleep(Duration::from_millis(50));
                for l in lives.lock().unwrap().iter() {
                    let (late, ch) = { let l = l.lock().unwrap(); (l.started.map_or(false, |s| s.elapsed() > hang), l.choices.clone()) };
                    if late { fatal(Violation { sig: format!("hang:{}", name), msg: format!("no answer within {} s", hang.as_secs()), exploration: name.into(), choices: ch }); }
                }
            }
        });
        let mut bad = false;
        for x in hs { if x.join().is_err() { bad = true; } }
        *done.lock().unwrap() = true;
        watcher.join().unwrap();
        if bad { ERRORS.lock().unwrap().push(format!("{}: {}", name, *HARNESS_PANIC.lock().unwrap())); }
    });
    let mut t = TOTALS.lock().unwrap(); let t = t.as_mut().unwrap();
    t.states += distinct.lock().unwrap().len() as u64;
    t.bounds.push(format!("{}: {}", name, bounds));
    if *capped.lock().unwrap() { t.capped.push(name.to_string()); }
}
fn new_ctx(prefix: Vec<u32>, name: &str, dev_bound: u32, live: Arc<Mutex<Live>>) -> Ctx {
    Ctx { prefix, choices: vec![], is_dev: vec![], devs: 0, dev_bound, states: HashSet::new(), transitions: 0, traces: 0, outcomes: BTreeMap::new(), sample: String::new(), violations: vec![], exploration: name.into(), live }
}
impl Ctx { pub fn deviations(&self) -> u32 { self.devs } pub fn deviation_bound(&self) -> u32 { self.dev_bound } }
static HARNESS_PANIC: Mutex<String> = Mutex::new(String::new());
static ERRORS: Mutex<Vec<String>> = Mutex::new(vec![]);

/// End the run at once with this violation (a hang, or an allocation nobody can serve).
pub fn fatal(v: Violation) -> ! {
    static FIRST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
    if !FIRST.swap(false, std::sync::atomic::Ordering::SeqCst) { loop { std::thread::sleep(Duration::from_secs(1)); } }
    let mut t = match TOTALS.try_lock() { Ok(mut g) => g.take().unwrap_or_default(), Err(_) => Totals::default() };
    *t.sig_counts.entry(v.sig.clone()).or_default() += 1;
    t.violations.push(v);
    t.capped.push("ended at a fatal violation".into());
    write_out(&t);
    unsafe { libc::_exit(0) }
}
pub fn fatal_here(sig: &str, msg: String) -> ! {
    let (e, c) = LIVE.with(|l| l.borrow().as_ref().map(|l| { let l = l.lock().unwrap(); (l.exploration.clone(), l.choices.clone()) })).unwrap_or_default();
    fatal(Violation { sig: sig.into(), msg, exploration: e, choices: c })
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}
fn clip(s: &str) -> String { if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s.into() } }
fn write_out(t: &Totals) {
    let cf = conf();
    let list = |v: &[String]| v.iter().map(|s| esc(&clip(s))).collect::<Vec<_>>().join(",");
    let vs = t.violations.iter().map(|v| format!("{{\"sig\":{},\"msg\":{},\"exploration\":{},\"choices\":{:?}}}", esc(&v.sig), esc(&clip(&v.msg)), esc(&v.exploration), v.choices.iter().map(|c| vec![c.0, c.1]).collect::<Vec<_>>())).collect::<Vec<_>>().join(",");
    let oc = t.outcomes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let sc = t.sig_counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let s = format!("{{\"property\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"max_depth\":{},\"exhaustive\":{},\"outcomes\":{{{}}},\"bounds\":[{}],\"capped\":[{}],\"samples\":[{}],\"sig_counts\":{{{}}},\"violations\":[{}],\"wall_s\":{:.3}}}\n",
        esc(&cf.property), t.executions, t.states, t.transitions, t.traces, t.max_depth, t.capped.is_empty(), oc, list(&t.bounds), list(&t.capped), list(&t.samples), sc, vs, cf.start.elapsed().as_secs_f64());
    if !cf.out.is_empty() { std::fs::write(&cf.out, s).unwrap(); }
}
static SAVED: OnceLock<i32> = OnceLock::new();
/// Print on the original standard output.
pub fn say(s: &str) { let fd = *SAVED.get().unwrap_or(&1); let s = format!("{}\n", s); unsafe { libc::write(fd, s.as_ptr() as *const _, s.len()); } }
/// Also count a violation found outside an exploration.
pub fn main(run: impl Fn(&str)) {
    let args: Vec<String> = std::env::args().collect();
    let mut property = String::new(); let mut tier = "quick".to_string(); let mut out = String::new(); let mut replay = None; let mut limit = 240u64;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => { tier = args[i + 1].clone(); i += 1; }
            "--out" => { out = args[i + 1].clone(); i += 1; }
            "--limit" => { limit = args[i + 1].parse().unwrap(); i += 1; }
            "--replay" => { let ex = args[i + 1].clone(); let ch = args[i + 2].split(',').filter(|s| !s.is_empty()).map(|p| { let (n, c) = p.split_once(':').unwrap(); (n.parse().unwrap(), c.parse().unwrap()) }).collect(); replay = Some((ex, ch)); i += 2; }
            p => property = p.to_string(),
        }
        i += 1;
    }
    let is_replay = replay.is_some();
    let start = Instant::now();
    if CONF.set(Conf { property: property.clone(), tier, out, replay, start, deadline: start + Duration::from_secs(limit) }).is_err() { panic!() }
    *TOTALS.lock().unwrap() = Some(Totals::default());
    unsafe {
        // the code under test talks a lot; keep its chatter out of the results
        let saved = libc::dup(1); let _ = SAVED.set(saved);
        if std::env::var("MC_VERBOSE").is_err() { let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); libc::dup2(n, 1); libc::dup2(n, 2); }
    }
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let m = format!("{} ({})", m, info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line())));
        if CATCHING.with(|c| c.get()) == 0 { *HARNESS_PANIC.lock().unwrap() = m.clone(); }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    std::fs::create_dir_all(scratch_root()).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| run(&property)));
    let _ = std::fs::remove_dir_all(scratch_root());
    if r.is_err() { ERRORS.lock().unwrap().push(LAST_PANIC.with(|p| p.borrow().clone())); }
    let mut t = match TOTALS.lock() { Ok(mut g) => g.take(), Err(e) => e.into_inner().take() }.unwrap_or_default();
    let errors = ERRORS.lock().unwrap().clone(); if !errors.is_empty() { t.capped.push("harness errors".into()); }
    if t.executions == 0 && errors.is_empty() { say("nothing explored"); std::process::exit(2); }
    write_out(&t);
    if is_replay { std::process::exit(if t.violations.is_empty() { 0 } else { 1 }); }
    say(&format!("{}: {} executions, {} states, {} transitions, {} traces, {} violations, outcomes {:?}", property, t.executions, t.states, t.transitions, t.traces, t.violations.len(), t.outcomes));
    for v in &t.violations { say(&format!("  [{}] {} {}", v.sig, v.exploration, clip(&v.msg))); }
    for e in errors.iter().take(5) { say(&format!("harness error: {}", clip(e))); }
    if !errors.is_empty() { say(&format!("{} harness errors", errors.len())); std::process::exit(2); }
}
