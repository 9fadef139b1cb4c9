//! C23: no undefined behaviour: the process is watched by AddressSanitizer, ThreadSanitizer or the
//! Miri interpreter (one build each) and by the checked build's assertions; this file is the workload.
use mixed_num_mon::{api::*, *};
use std::sync::Barrier;

fn f<T: tr::Full>() -> Vec<Op> { let mut v = cplx::<T>(); v.extend(full::<T>()); v }
trait Rc: mixed_num::MixedNumConversion<mixed_num::Cartesian<f64>> + mixed_num::MixedNumConversion<mixed_num::Cartesian<i32>> + mixed_num::MixedNumConversion<mixed_num::Cartesian<f32>> {}
impl<T: mixed_num::MixedNumConversion<mixed_num::Cartesian<f64>> + mixed_num::MixedNumConversion<mixed_num::Cartesian<i32>> + mixed_num::MixedNumConversion<mixed_num::Cartesian<f32>>> Rc for T {}
fn fx<T: tr::Full + ::fixed::traits::FixedSigned + Rc>() -> Vec<Op> { let mut v = f::<T>(); v.extend(fixed_powi::<T>()); v.extend(real_cart::<T>()); v }
fn fl<T: tr::Full + Fl + Rc>() -> Vec<Op> { let mut v = f::<T>(); v.extend(float::<T>()); v.extend(real_cart::<T>()); v }
fn ur<T: Un + mixed_num::MixedSqrt + Rc>() -> Vec<Op> { let mut v = unsig::<T>(); v.extend(root::<T>()); v.extend(real_cart::<T>()); v }

/// Arguments by index: an exhaustive walk of the narrow formats where that is short, else any bits.
fn args(o: &Op, r: &mut Rng) -> A { hostile(o, r) }

fn env(k: &str, d: usize) -> usize { std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d) }

fn tables(miri: bool) -> Vec<Vec<Op>> {
    use ::fixed::types::extra::*;
    use ::fixed::*;
    let tabs: Vec<Vec<Op>> = vec![fl::<f32>(), fx::<FixedI32<U22>>(), fx::<FixedI8<U4>>(), cplx::<i32>(), ur::<FixedU32<U16>>(),
            fl::<f64>(), fx::<FixedI16<U8>>(), fx::<FixedI64<U32>>(), cplx::<i8>(), cplx::<i128>(), ur::<FixedU8<U3>>(),
            fx::<FixedI16<U0>>(), fx::<FixedI16<U13>>(), fx::<FixedI32<U10>>(), fx::<FixedI32<U29>>(), fx::<FixedI64<U16>>(), fx::<FixedI64<U61>>(), cplx::<i16>(), cplx::<i64>(), cplx::<isize>(),
            ur::<FixedU16<U9>>(), ur::<FixedU64<U40>>(), ur::<FixedU64<U61>>(), unsig::<u8>(), unsig::<u32>(), unsig::<u64>(), unsig::<u128>()];
    // several interpreters share the types (MON_SHARD of MON_SHARDS)
    let (sh, shs) = (env("MON_SHARD", 0), env("MON_SHARDS", 1));
    if miri { tabs.into_iter().enumerate().filter(|(i, _)| i % shs == sh).map(|(_, t)| t).collect() } else { tabs }
}

/// The very first calls in the process, made by several threads at once with nothing but their start to
/// order them: what the library sets up on first use is set up here, under the eyes of the race detectors.
fn cold(miri: bool, seed: u64) -> u64 {
    let tabs = tables(miri);
    let ops: Vec<&Op> = tabs.iter().flatten().collect();
    let k = if miri { 2 } else { 6 };
    let bar = Barrier::new(k);
    std::thread::scope(|s| (0..k).map(|id| { let (bar, ops) = (&bar, &ops); s.spawn(move || {
        let mut calls = 0;
        let n = ops.len();
        let mut r = Rng::new(seed);
        let from = r.below(n as u64) as usize;
        bar.wait();
        for round in 0..if miri { 1 } else { 2 } {
            for j in 0..n {
                let q = (from + if id % 3 == 2 { n - 1 - j } else { j }) % n;
                let a = benign(ops[q], round + q);
                let _ = std::panic::catch_unwind(|| (ops[q].f)(&a));
                calls += 1;
            }
        }
        calls
    }) }).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).sum())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let first = cold(std::env::var("MON_PROFILE").map(|p| p == "miri").unwrap_or(false), env("VERIF_SEED", 1) as u64);
    mon::run("C23", "one call of one entry point on arbitrary arguments in a process watched by a sanitizer, by one thread alone and by four threads at once on the same data; every call must end without a report; distinct argument tuples", |ctx| {
        let miri = ctx.profile == "miri";
        let tabs = tables(miri);
        let n = if miri { if ctx.thorough { 60 } else { 2 } } else { ctx.n(800, 100_000) };
        let thr_n = if miri { if ctx.thorough { 6 } else { 1 } } else { ctx.n(300, 20_000) };
        let seed = ctx.seed;
        let mut first = first;
        // the interpreter's workload is bounded by time: at least n calls of each entry point, then more rounds
        let budget = if miri { env("MON_BUDGET", 0) as f64 / tabs.len().max(1) as f64 } else { 0.0 };
        tabs.into_iter().map(|t| -> Job { let first = std::mem::take(&mut first); Box::new(move |w: &mut W| {
            if first > 0 { w.note("calls made by the first threads of the process, on first use", first); w.evals += first }
            let t0 = std::time::Instant::now();
            let ty = t[0].ty;
            for o in &t {
                if !miri && !ty.is_float() && o.tag == "1" && ty.bits <= 16 { for r in gen::all_raw(&ty) { let a = [r, 0, 0, 0]; let _ = w.call(o.name, ty.name, &a, || (o.f)(&a)); w.judged(o.name, ty.name, &a, true, true); } w.op_count(o.name, 1 << ty.bits) }
                if arity(o) == 1 {
                    for s in special(&ty) { let a = [s, 0, 0, 3]; let _ = w.call(o.name, ty.name, &a, || (o.f)(&a)); w.judged(o.name, ty.name, &a, true, false); }
                }
                for _ in 0..n {
                    let mut r = w.rng.clone();
                    let a = args(o, &mut r);
                    w.rng = r;
                    match w.call(o.name, ty.name, &a, || (o.f)(&a)) { Out::Ok(_) => w.note("values returned", 1), Out::Panic(_) => w.note("panics (not representable)", 1) }
                    w.judged(o.name, ty.name, &a, true, false);
                }
                w.op_count(o.name, n);
            }
            // four threads, one set of arguments, every operation
            let k = if miri { 2 } else { 4 };
            let bar = Barrier::new(k);
            let mut r = Rng::new(seed ^ ty.bits as u64 ^ (ty.frac as u64) << 8);
            let ins: Vec<A> = t.iter().map(|o| args(o, &mut r)).collect();
            let calls: u64 = std::thread::scope(|s| (0..k).map(|id| { let (bar, ins, t) = (&bar, &ins, &t); s.spawn(move || {
                bar.wait();
                let mut c = 0u64;
                for i in 0..thr_n as usize { for j in 0..t.len() {
                    let q = (j + id * (i + 1)) % t.len();
                    let _ = std::panic::catch_unwind(|| (t[q].f)(&ins[q]));
                    c += 1;
                } }
                c
            }) }).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).sum());
            w.note("calls made by threads sharing the same arguments", calls);
            w.evals += calls;
            while t0.elapsed().as_secs_f64() < budget {
                for o in &t {
                    if t0.elapsed().as_secs_f64() > budget { break }
                    let mut r = w.rng.clone();
                    let a = args(o, &mut r);
                    w.rng = r;
                    match w.call(o.name, ty.name, &a, || (o.f)(&a)) { Out::Ok(_) => w.note("values returned", 1), Out::Panic(_) => w.note("panics (not representable)", 1) }
                    w.judged(o.name, ty.name, &a, true, false);
                    w.op_count(o.name, 1);
                }
            }
        }) }).collect()
    })
}
