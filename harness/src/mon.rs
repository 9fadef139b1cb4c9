//! The monitor: records every call to the code under test as an event (operation, element type,
//! arguments, outcome), runs jobs on worker threads, watches each call's CPU time, collects
//! violations by signature and writes the part evidence file.
use crate::rng::{splitmix, Rng};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
type Set = HashSet<u64, BuildHasherDefault<Id>>;
const SET_CAP: usize = 1_500_000;

#[derive(Clone)]
pub struct Violation { pub sig: String, pub detail: String, pub count: u64 }

#[derive(Default)]
struct Slot { seq: AtomicU64, busy: AtomicBool, pth: AtomicU64, op: [AtomicU64; 4], nargs: AtomicU64, args: [AtomicU64; 16], patience: AtomicU64 }
impl Slot {
    #[inline]
    fn put(&self, op: &'static str, ty: &'static str, args: &[i128]) {
        self.op[0].store(op.as_ptr() as u64, Relaxed); self.op[1].store(op.len() as u64, Relaxed);
        self.op[2].store(ty.as_ptr() as u64, Relaxed); self.op[3].store(ty.len() as u64, Relaxed);
        let n = args.len().min(8);
        self.nargs.store(n as u64, Relaxed);
        for (i, a) in args.iter().take(n).enumerate() { self.args[2 * i].store(*a as u64, Relaxed); self.args[2 * i + 1].store((*a >> 64) as u64, Relaxed); }
    }
    /// Only read while the owning thread has been inside the same call for many CPU seconds.
    fn get(&self) -> (&'static str, &'static str, Vec<i128>) {
        let st = |i: usize| { let (p, l) = (self.op[i].load(Relaxed), self.op[i + 1].load(Relaxed));
            if p == 0 { "" } else { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, l as usize)) } } };
        let a = (0..self.nargs.load(Relaxed) as usize).map(|i| self.args[2 * i].load(Relaxed) as i128 & 0xFFFF_FFFF_FFFF_FFFF | (self.args[2 * i + 1].load(Relaxed) as i128) << 64).collect();
        (st(0), st(2), a)
    }
}

pub struct Ctx { pub id: String, pub thorough: bool, pub seed: u64, pub profile: String }
impl Ctx {
    /// quick/thorough iteration counts
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        if self.profile == "miri" { (n / 20000).max(1) } else { n }
    }
}

pub struct W {
    pub rng: Rng,
    slot: Arc<Slot>,
    pub evals: u64,
    pub skipped: u64,
    distinct_enum: u64,
    set: Set,
    ops: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    maxes: BTreeMap<String, (f64, String)>,
    samples: Vec<String>,
    viol: BTreeMap<String, Violation>,
    panics_caught: u64,
}

thread_local! { static PANIC_MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// What one call to the library did.
#[derive(Clone, Debug)]
pub enum Out<R> { Ok(R), Panic(String) }

impl W {
    fn new(slot: Arc<Slot>) -> W {
        W { rng: Rng::new(0), slot, evals: 0, skipped: 0, distinct_enum: 0, set: Set::default(), ops: BTreeMap::new(), notes: BTreeMap::new(),
            maxes: BTreeMap::new(), samples: vec![], viol: BTreeMap::new(), panics_caught: 0 }
    }
    /// Run the code under test on one case: records the event, catches a panic, feeds the watchdog.
    #[inline]
    pub fn call<R>(&mut self, op: &'static str, ty: &'static str, args: &[i128], f: impl FnOnce() -> R) -> Out<R> {
        self.slot.put(op, ty, args);
        self.slot.seq.fetch_add(1, Relaxed);
        self.slot.busy.store(true, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.slot.busy.store(false, Relaxed);
        self.evals += 1;
        match r {
            Ok(v) => Out::Ok(v),
            Err(_) => { self.panics_caught += 1; Out::Panic(PANIC_MSG.with(|m| m.borrow().clone())) }
        }
    }
    /// Count a judged case. `enumerated`: distinct by construction (an exhaustive loop).
    #[inline]
    pub fn judged(&mut self, op: &'static str, ty: &'static str, args: &[i128], nontrivial: bool, enumerated: bool) {
        if !nontrivial { return }
        if enumerated { self.distinct_enum += 1; return }
        if self.set.len() >= SET_CAP { return }
        let mut h = (op.as_ptr() as u64) ^ (ty.as_ptr() as u64).rotate_left(32);
        h = splitmix(&mut h);
        for a in args { h ^= *a as u64 ^ ((*a >> 64) as u64).rotate_left(17); h = splitmix(&mut h); }
        self.set.insert(h);
    }
    pub fn op_count(&mut self, op: &str, n: u64) { *self.ops.entry(op.to_string()).or_insert(0) += n }
    pub fn note(&mut self, k: &str, n: u64) { *self.notes.entry(k.to_string()).or_insert(0) += n }
    /// Track the largest observed value of a measured quantity (error / tolerance, steps, ...).
    pub fn max(&mut self, k: &str, v: f64, who: impl FnOnce() -> String) {
        match self.maxes.get_mut(k) {
            Some(e) => if v > e.0 { *e = (v, who()) },
            None => { self.maxes.insert(k.to_string(), (v, who())); }
        }
    }
    /// The calls which follow may take this many times the usual limit (0: the usual limit).
    pub fn patience(&mut self, times: u64) { self.slot.patience.store(times, Relaxed) }
    pub fn skip(&mut self) { self.skipped += 1 }
    pub fn wants_sample(&self) -> bool { self.samples.len() < 4 }
    pub fn sample(&mut self, s: String) { if self.samples.len() < 4 { self.samples.push(s) } }
    pub fn violate(&mut self, sig: String, detail: String) {
        if let Some(v) = self.viol.get_mut(&sig) { v.count += 1; return }
        if let Ok(mut e) = EARLY.lock() { if e.len() < 100 { e.push(Violation { sig: sig.clone(), detail: detail.clone(), count: 1 }) } }
        if self.viol.len() < 400 { self.viol.insert(sig.clone(), Violation { sig, detail, count: 1 }); }
    }
    pub fn n_viol(&self) -> usize { self.viol.len() }
}

/// First sightings, for a run which has to be cut short because the code under test became too slow.
static EARLY: Mutex<Vec<Violation>> = Mutex::new(vec![]);

pub type Job = Box<dyn FnOnce(&mut W) + Send>;

// the interpreter has no CPU clocks of other threads: no watchdog there
#[cfg(miri)]
unsafe fn pthread_self() -> u64 { 0 }
#[cfg(miri)]
fn cpu_of(_: u64) -> Option<f64> { None }
#[cfg(not(miri))]
extern "C" {
    fn pthread_self() -> u64;
    fn pthread_getcpuclockid(t: u64, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}
#[cfg(not(miri))]
fn cpu_of(pth: u64) -> Option<f64> {
    unsafe {
        let mut clk = 0i32;
        if pthread_getcpuclockid(pth, &mut clk) != 0 { return None }
        let mut ts = [0i64; 2];
        if clock_gettime(clk, &mut ts) != 0 { return None }
        Some(ts[0] as f64 + ts[1] as f64 * 1e-9)
    }
}

fn known(id: &str) -> Vec<(String, String)> {
    let path = std::env::var("VERIF_KNOWN").unwrap_or("/verif/known_findings.txt".into());
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("KNOWN-FINDING: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("").to_string();
                let s = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("").to_string();
                if p == id && !s.is_empty() { v.push((s, it.next().unwrap_or("").to_string())) }
            }
        }
    }
    v
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

struct Acc { w: Vec<W>, hang: Option<Violation> }

/// No call of the library takes a tenth of a second; sanitizers slow it down by up to twenty.
pub const HANG_CPU_S: f64 = 6.0;

/// Run a property's jobs and exit with the verdict.
pub fn run(id: &str, rule: &str, jobs: impl FnOnce(&Ctx) -> Vec<Job>) -> ! {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let profile = std::env::var("MON_PROFILE").unwrap_or("checked".into());
    let threads: usize = std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let ctx = Ctx { id: id.into(), thorough, seed, profile: profile.clone() };
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or("?".into());
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
    let js = jobs(&ctx);
    let njobs = js.len();
    let q = Arc::new(Mutex::new(js.into_iter().enumerate().collect::<VecDeque<(usize, Job)>>()));
    let acc = Arc::new(Mutex::new(Acc { w: vec![], hang: None }));
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot::default())).collect();
    let live = Arc::new(AtomicU64::new(threads as u64));
    let base = { let mut s = seed ^ 0xA5A5_0000; for b in id.bytes().chain(profile.bytes()) { s = splitmix(&mut s) ^ b as u64 } s };
    let harness_err = Arc::new(Mutex::new(None::<String>));
    for slot in &slots {
        let (q, acc, slot, live, he) = (q.clone(), acc.clone(), slot.clone(), live.clone(), harness_err.clone());
        std::thread::Builder::new().stack_size(if profile == "asan" || profile == "tsan" { 16 << 20 } else { 2 << 20 }).spawn(move || {
            slot.pth.store(unsafe { pthread_self() }, SeqCst);
            let mut w = W::new(slot);
            loop {
                let j = q.lock().unwrap().pop_front();
                let Some((i, j)) = j else { break };
                w.rng = Rng::new(base ^ (i as u64).wrapping_mul(0xD6E8FEB86659FD93));
                if let Err(_) = catch_unwind(AssertUnwindSafe(|| j(&mut w))) {
                    *he.lock().unwrap() = Some(format!("job {} of the harness itself panicked: {}", i, PANIC_MSG.with(|m| m.borrow().clone())));
                }
            }
            w.slot.busy.store(false, SeqCst);
            acc.lock().unwrap().w.push(w);
            live.fetch_sub(1, SeqCst);
        }).unwrap();
    }
    // Watchdog: decides on the CPU time of the thread inside one call, not on wall-clock time.
    let deadline: f64 = std::env::var("MON_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(f64::MAX);
    let limit = if profile == "tsan" || profile == "asan" { 5.0 * HANG_CPU_S } else { HANG_CPU_S };
    let mut cut = false;
    let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); threads];
    while live.load(SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(if profile == "miri" { 1 } else { 20 }));
        if profile == "miri" { continue }
        for (i, s) in slots.iter().enumerate() {
            if !s.busy.load(SeqCst) { seen[i].0 = u64::MAX; continue }
            let seq = s.seq.load(SeqCst);
            let Some(cpu) = cpu_of(s.pth.load(SeqCst)) else { continue };
            if seen[i].0 != seq { seen[i] = (seq, cpu); continue }
            let limit = limit * s.patience.load(Relaxed).max(1) as f64;
            if cpu - seen[i].1 > limit && s.seq.load(SeqCst) == seq && s.busy.load(SeqCst) {
                let c = s.get();
                acc.lock().unwrap().hang = Some(Violation { sig: format!("hang:{}:{}", c.0, c.1), count: 1,
                    detail: format!("{} on {} with raw arguments {:?} used more than {} s of CPU time without returning", c.0, c.1, c.2, limit) });
            }
        }
        if acc.lock().unwrap().hang.is_some() { cut = true; break }
        if t0.elapsed().as_secs_f64() > deadline && !EARLY.lock().unwrap().is_empty() { cut = true; break }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut a = acc.lock().unwrap();
    let mut viol: BTreeMap<String, Violation> = BTreeMap::new();
    let (mut evals, mut skipped, mut dist, mut panics) = (0u64, 0u64, 0u64, 0u64);
    let mut ops: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, (f64, String)> = BTreeMap::new();
    let mut samples = vec![];
    let mut all: Set = Set::default();
    for w in a.w.iter_mut() {
        evals += w.evals; skipped += w.skipped; dist += w.distinct_enum; panics += w.panics_caught;
        for (k, v) in &w.ops { *ops.entry(k.clone()).or_insert(0) += v }
        for (k, v) in &w.notes { *notes.entry(k.clone()).or_insert(0) += v }
        for (k, v) in &w.maxes { let e = maxes.entry(k.clone()).or_insert((f64::MIN, String::new())); if v.0 > e.0 { *e = v.clone() } }
        for s in w.samples.drain(..) { if samples.len() < 12 { samples.push(s) } }
        for (k, v) in &w.viol { let e = viol.entry(k.clone()).or_insert(Violation { count: 0, ..v.clone() }); e.count += v.count; }
        all.extend(w.set.drain());
    }
    dist += all.len() as u64;
    if cut { for v in EARLY.lock().unwrap().iter() { viol.entry(v.sig.clone()).or_insert(v.clone()); } }
    if let Some(h) = a.hang.take() { viol.insert(h.sig.clone(), h); }
    let kn = known(id);
    let mut bad = vec![];
    let mut known_seen = vec![];
    for v in viol.values() {
        if let Some((s, d)) = kn.iter().find(|(s, _)| *s == v.sig) { known_seen.push((s.clone(), d.clone(), v.count)) } else { bad.push(v.clone()) }
    }
    let out = std::env::var("MON_OUT").unwrap_or_else(|_| format!("/tmp/mon-{}-{}.json", id, profile));
    let mut j = String::from("{\n");
    j += &format!("\"property\": {}, \"profile\": {}, \"seed\": {}, \"tier\": {},\n", esc(id), esc(&profile), seed, esc(if thorough { "thorough" } else { "quick" }));
    j += &format!("\"rule\": {},\n", esc(rule));
    j += &format!("\"jobs\": {}, \"threads\": {}, \"evaluations\": {}, \"outside_domain_skipped\": {}, \"distinct_nontrivial\": {}, \"panics_observed\": {}, \"wall_s\": {:.3},\n", njobs, threads, evals, skipped, dist, panics, wall);
    let m = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    j += &format!("\"calls_by_operation\": {{{}}},\n\"observed\": {{{}}},\n", m(&ops), m(&notes));
    j += &format!("\"worst_observed\": {{{}}},\n", maxes.iter().map(|(k, v)| format!("{}: {{\"value\": {}, \"at\": {}}}", esc(k), if v.0.is_finite() { format!("{:e}", v.0) } else { esc(&format!("{}", v.0)) }, esc(&v.1))).collect::<Vec<_>>().join(", "));
    j += &format!("\"samples\": [{}],\n", samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    j += &format!("\"known_findings_seen\": [{}],\n", known_seen.iter().map(|k| format!("{{\"sig\": {}, \"what\": {}, \"count\": {}}}", esc(&k.0), esc(&k.1), k.2)).collect::<Vec<_>>().join(", "));
    j += &format!("\"violations\": [{}]\n}}\n", bad.iter().map(|v| format!("{{\"sig\": {}, \"detail\": {}, \"count\": {}}}", esc(&v.sig), esc(&v.detail), v.count)).collect::<Vec<_>>().join(",\n "));
    if profile != "miri" { std::fs::write(&out, &j).expect("write part evidence"); } else { println!("{}", j); }
    for v in bad.iter().take(30) { println!("  violated [{}] x{}: {}", v.sig, v.count, v.detail) }
    println!("{} [{}] evaluations={} distinct={} skipped={} violations={} wall={:.1}s", id, profile, evals, dist, skipped, bad.len(), wall);
    if std::env::var("MON_VERBOSE").is_ok() { for (k, v) in &maxes { println!("  max {} = {:.4e}  at {}", k, v.0, v.1) } for (k, v) in &ops { println!("  op {} {}", k, v) } for (k, v) in &notes { println!("  note {} {}", k, v) } }
    if bad.is_empty() {
        if let Some(e) = harness_err.lock().unwrap().clone() { eprintln!("HARNESS-ERROR {}", e); std::process::exit(3) }
        if evals == 0 { eprintln!("HARNESS-ERROR nothing was observed"); std::process::exit(3) }
    }
    std::process::exit(if bad.is_empty() { 0 } else { 1 })
}
