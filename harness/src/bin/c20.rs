//! C20: results depend on the arguments alone: not on history, thread, build profile; no heap use.
use mixed_num_mon::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier, Mutex};

/// Counts the allocations of the current thread.
struct Counting;
thread_local! { static ALLOCS: Cell<u64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let _ = ALLOCS.try_with(|c| c.set(c.get() + 1)); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let _ = ALLOCS.try_with(|c| c.set(c.get() + 1)); System.realloc(p, l, n) }
}
#[global_allocator]
static A_: Counting = Counting;
fn allocs() -> u64 { ALLOCS.with(|c| c.get()) }

/// One outcome as a hash; all NaN are one value. 0: panicked.
fn hash(ty: &Ty, r: &Out<A>) -> u64 {
    let Out::Ok(v) = r else { return 0 };
    let mut h = 0x1234_5678u64;
    for x in v {
        let x = if ty.is_float() && ty.val(*x).is_nan() { 0x7fc0_dead } else { *x };
        h ^= x as u64; rng::splitmix(&mut h); h = rng::splitmix(&mut h) ^ (x >> 64) as u64;
        h = rng::splitmix(&mut h);
    }
    h | 1
}
fn raw(o: &Op, a: &A) -> Out<A> { match std::panic::catch_unwind(|| (o.f)(a)) { Ok(v) => Out::Ok(v), Err(_) => Out::Panic(String::new()) } }

/// The profile independent inputs of one operation.
fn inputs(o: &Op, seed: u64, n: usize) -> Vec<A> {
    let mut s = seed;
    for b in o.name.bytes().chain(o.ty.name.bytes()) { s ^= b as u64; s = rng::splitmix(&mut s); }
    let mut r = Rng::new(s);
    let mut v: Vec<A> = vec![];
    while v.len() < n {
        let a = api::hostile(o, &mut r);
        v.push(a);
        // arguments which a careless memory of earlier calls takes for the same: neighbours, one bit
        // flipped, parts exchanged, one part changed
        if r.chance(2) {
            let k = api::arity(o);
            if k == 0 { continue }
            let i = r.below(k as u64) as usize;
            let mut b = a;
            match r.below(6) {
                0 | 1 => b[i] = gen::step(&o.ty, a[i], r.range(-3, 3)),
                2 => b[i] = gen::wrap(&o.ty, a[i] ^ 1 << r.below(o.ty.bits.min(127) as u64)),
                3 => b[i] = gen::neg(&o.ty, a[i]),
                4 => { let j = r.below(k as u64) as usize; b.swap(i, j) }
                _ => b[i] = if o.name.contains("scalar") && i == 2 { a[i] } else { gen::any(&o.ty, &mut r) },
            }
            if o.name.contains("scalar f") && i == 2 { b[2] = (a[2] as u64 ^ 1 << r.below(30)) as i128 } else if o.name.contains("scalar") { b[2] = a[2] }
            v.push(b);
        }
    }
    v
}
fn key(o: &Op) -> String { format!("{}\t{}", o.name, o.ty.name) }

fn bad(w: &mut W, o: &Op, what: &str, a: &A, x: &dyn std::fmt::Debug, y: &dyn std::fmt::Debug) {
    w.violate(format!("{}:{}:{}", what, o.name, o.ty.name), format!("{} ({}): {:?}, but {} {:?}", o.name, show(&o.ty, a), x, what, y))
}

/// A fresh process whose first calls are made by four threads in step: every operation of some types is
/// called for the first time by all of them at once. Prints what differs from the calls made afterwards.
fn cold_child(seed: u64) {
    use std::sync::atomic::{AtomicUsize, Ordering::*};
    const K: usize = 4;
    let mut r = Rng::new(seed);
    let mut tabs = all_tables!();
    let hot = |t: &Vec<Op>| matches!(t[0].ty.name, "f32" | "f64" | "i32" | "FixedI32<U22>" | "FixedI16<U8>");
    tabs.retain(|t| hot(t) || r.below(12) == 0);
    let mut ops: Vec<Op> = tabs.into_iter().flatten().collect();
    for i in (1..ops.len()).rev() { let j = r.below(i as u64 + 1) as usize; ops.swap(i, j) }
    let ins: Vec<[A; 2]> = ops.iter().map(|o| { let k = r.below(3) as usize; [api::benign(o, k), api::benign(o, k + 1)] }).collect();
    let step = AtomicUsize::new(0);
    let got: Vec<Vec<u64>> = std::thread::scope(|s| (0..K).map(|id| { let (ops, ins, step) = (&ops, &ins, &step); s.spawn(move || {
        let mut h = Vec::with_capacity(ops.len());
        for (i, o) in ops.iter().enumerate() {
            step.fetch_add(1, SeqCst);
            let mut spins = 0u32;
            while step.load(Acquire) < (i + 1) * K { spins += 1; if spins > 2000 { std::thread::yield_now() } else { std::hint::spin_loop() } }
            for _ in 0..id * (i & 15) { std::hint::spin_loop() } // a little later each
            h.push(hash(&o.ty, &raw(o, &ins[i][id & 1])));
        }
        h
    }) }).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect());
    for (i, o) in ops.iter().enumerate() {
        let want = [0, 1].map(|k| hash(&o.ty, &raw(o, &ins[i][k])));
        for id in 0..K { if got[id][i] != want[id & 1] {
            let g = raw(o, &ins[i][id & 1]);
            println!("COLD\t{}:{}\t{} ({}): when first called by {} threads at once another result than {:?}", o.name, o.ty.name, o.name, show(&o.ty, &ins[i][id & 1]), K, g);
            break
        } }
    }
    println!("CALLS\t{}", ops.len() * K);
}

/// (calls, processes, differences) of n such processes, two at a time.
fn cold(seed: u64, n: u64) -> (u64, u64, Vec<(String, String)>) {
    let exe = std::env::current_exe().unwrap();
    let (mut calls, mut ran, mut bad) = (0, 0, vec![]);
    let mut i = 0;
    while i < n {
        let ps: Vec<_> = (i..(i + 2).min(n)).map(|k| std::process::Command::new(&exe).env("MON_COLD", (seed << 20 | k).to_string()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap()).collect();
        i += ps.len() as u64;
        for p in ps {
            let out = p.wait_with_output().unwrap();
            let text = String::from_utf8_lossy(&out.stdout).into_owned();
            for l in text.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[..] { ["CALLS", c] => { calls += c.parse::<u64>().unwrap_or(0); ran += 1 } ["COLD", s, d] => bad.push((s.to_string(), d.to_string())), _ => {} }
            }
        }
    }
    (calls, ran, bad)
}

type Shared = Arc<Mutex<BTreeMap<String, Vec<u64>>>>;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(s) = std::env::var("MON_COLD").ok().and_then(|s| s.parse().ok()) { return cold_child(s) }
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    let first = cold(env("VERIF_SEED").parse().unwrap_or(1), if env("VERIF_TIER") == "thorough" { 20_000 } else { 400 });
    mon::run("C20", "one call of one entry point on one argument tuple, repeated: right after itself, after a shuffled history of other calls, on other threads running the same calls at the same time, and in the other build profile; allocations of every call counted; distinct argument tuples", |ctx| {
        let n = ctx.n(240, 4000) as usize;
        let seed = ctx.seed;
        let dir = std::env::var("MON_DIGEST_DIR").unwrap_or("/tmp".into());
        let file = format!("{}/c20-digests-{}.txt", dir, seed);
        let release = ctx.profile == "release";
        let other: Arc<BTreeMap<String, Vec<u64>>> = Arc::new(if release {
            std::fs::read_to_string(&file).unwrap_or_default().lines().filter_map(|l| { let (k, v) = l.rsplit_once('\t')?; Some((k.to_string(), v.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect())) }).collect()
        } else { BTreeMap::new() });
        let mine: Shared = Arc::new(Mutex::new(BTreeMap::new()));
        let tabs = all_tables!();
        let left = Arc::new(std::sync::atomic::AtomicUsize::new(tabs.len()));
        let mut jobs: Vec<Job> = vec![];
        jobs.push(Box::new(move |w: &mut W| {
            let (calls, ran, diff) = first;
            w.note("calls made in step by four threads of a fresh process, each entry's first", calls);
            w.note("fresh processes", ran);
            w.evals += calls;
            for (s, d) in diff { w.violate(format!("on first use another result:{}", s), d) }
        }));
        // concurrency: the same operation on every thread at once
        let hot: Vec<Vec<Op>> = tabs.iter().filter(|t| matches!(t[0].ty.name, "f32" | "f64" | "i32" | "i128" | "FixedI32<U22>" | "FixedI16<U8>" | "FixedI64<U32>" | "FixedU32<U16>")).cloned().collect();
        let rounds = ctx.n(300, 3000) as usize;
        for t in hot {
            jobs.push(Box::new(move |w: &mut W| for o in &t {
                let ins = inputs(o, seed ^ 77, 32);
                let want: Vec<u64> = ins.iter().map(|a| hash(&o.ty, &w.call(o.name, o.ty.name, a, || (o.f)(a)))).collect();
                let bar = Barrier::new(4);
                let res: Vec<(u64, Option<usize>)> = std::thread::scope(|s| (0..4usize).map(|th| { let (ins, want, bar) = (&ins, &want, &bar); s.spawn(move || {
                    bar.wait();
                    let mut calls = 0;
                    for k in 0..rounds { for i in 0..ins.len() {
                        // every thread walks in another order
                        let j = (i * [1, 5, 7, 11][th] + k + th * 6) % ins.len();
                        calls += 1;
                        if hash(&o.ty, &raw(o, &ins[j])) != want[j] { return (calls, Some(j)) }
                    } }
                    (calls, None)
                }) }).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect());
                for (calls, f) in res { w.note("calls made next to three other threads making the same", calls); if let Some(j) = f { bad(w, o, "concurrently another result", &ins[j], &want[j], &"") } }
            }));
        }
        for t in tabs {
            let (other, mine, left, file) = (other.clone(), mine.clone(), left.clone(), file.clone());
            jobs.push(Box::new(move |w: &mut W| {
                let mut hist: Vec<(usize, A, u64)> = vec![];
                for (oi, o) in t.iter().enumerate() {
                    let ty = &o.ty;
                    let ins = inputs(o, seed, n * match ty.kind { Kind::F32 | Kind::F64 => 20, Kind::Int => 5, _ => 1 });
                    let mut hs = vec![];
                    for a in &ins {
                        let keep = *a;
                        let mut res = Out::Panic(String::new());
                        let before = allocs();
                        let r = w.call(o.name, ty.name, a, || { res = Out::Ok((o.f)(a)); });
                        let used = allocs() - before;
                        let r = match r { Out::Ok(()) => res, Out::Panic(m) => Out::Panic(m) };
                        if let Out::Ok(_) = r { if used != 0 { bad(w, o, "allocated", a, &r, &used) } w.note("calls without an allocation", 1) }
                        let h = hash(ty, &r);
                        let again = w.call(o.name, ty.name, a, || (o.f)(a));
                        if hash(ty, &again) != h { bad(w, o, "again", a, &r, &again) }
                        if *a != keep { bad(w, o, "argument changed", &keep, &keep, a) }
                        hs.push(h);
                        hist.push((oi, *a, h));
                        w.judged(o.name, ty.name, a, true, false);
                    }
                    if release {
                        match other.get(&key(o)) {
                            Some(e) if e.len() == hs.len() => for (i, (x, y)) in e.iter().zip(&hs).enumerate() {
                                // 0: the overflow checked build reported that the result is not representable
                                if *x == 0 { w.note("not representable, not compared", 1); continue }
                                w.note("results equal in both build profiles", 1);
                                if x != y { let g = raw(o, &ins[i]); bad(w, o, "the overflow checked build disagrees with", &ins[i], &g, x) }
                            },
                            _ => w.note("no digest of the other profile", 1),
                        }
                    } else { mine.lock().unwrap().insert(key(o), hs); }
                    w.op_count(o.name, ins.len() as u64);
                }
                // the whole history of this type once more, in a random order
                for i in (1..hist.len()).rev() { let j = w.rng.below(i as u64 + 1) as usize; hist.swap(i, j) }
                for (oi, a, h) in &hist {
                    let o = &t[*oi];
                    let r = w.call(o.name, o.ty.name, a, || (o.f)(a));
                    if hash(&o.ty, &r) != *h { bad(w, o, "after other calls", a, &r, h) }
                    w.note("calls repeated after a shuffled history", 1);
                }
                if left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 1 && !release {
                    let m = mine.lock().unwrap();
                    let s: String = m.iter().map(|(k, v)| format!("{}\t{}\n", k, v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" "))).collect();
                    std::fs::write(&file, s).unwrap();
                }
            }));
        }
        jobs
    })
}
