//! C21: every entry point returns, for every argument whatsoever.
use mixed_num_mon::*;

extern "C" { fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32; }
fn thread_cpu() -> f64 { let mut t = [0i64; 2]; unsafe { clock_gettime(3, &mut t) }; t[0] as f64 + t[1] as f64 * 1e-9 }

/// A call may use this much CPU time of its thread (ordinary calls take some microseconds).
const LIMIT: f64 = 0.08;

/// Panics with which fixed point and integer arithmetic reports a result it cannot represent.
fn arithmetic(m: &str) -> bool { m.contains("overflow") || m.contains("divide by zero") || m.contains("division by zero") || m.contains("divisor of zero") }
fn by_zero(m: &str) -> bool { m.contains("by zero") || m.contains("divisor of zero") }

/// False when the call was too slow: the operation is not asked again.
fn judge(w: &mut W, o: &Op, a: &A) -> bool {
    let mut quick = true;
    let ty = &o.ty;
    let t0 = std::time::Instant::now();
    let c0 = thread_cpu();
    let r = w.call(o.name, ty.name, a, || (o.f)(a));
    let used = t0.elapsed().as_secs_f64();
    if used > LIMIT {
        // wall-clock time includes what other processes took: decide on this thread's CPU time, three times
        let mut least = thread_cpu() - c0;
        for _ in 0..3 {
            if least <= LIMIT { break }
            let c = thread_cpu();
            let _ = w.call(o.name, ty.name, a, || (o.f)(a));
            least = least.min(thread_cpu() - c);
        }
        if least > LIMIT { quick = false; w.violate(format!("slow:{}:{}", o.name, ty.name), format!("{} ({}) used {:.3} s of CPU time", o.name, show(ty, a), least)) }
    }
    let cls = if ty.is_float() { "longest call [us] float" } else if ty.kind == Kind::Int { "longest call [us] int" } else { "longest call [us] fixed" };
    w.max(cls, used * 1e6, || format!("{} {}", o.name, show(ty, a)));
    if let Out::Panic(m) = &r {
        // floats have a value for everything
        let ok = !ty.is_float() && (arithmetic(m) || (o.name.contains("scalar f") && (m.contains("finite") || m.contains("NaN"))));
        if !ok { w.violate(format!("panic:{}:{}", o.name, ty.name), format!("{} ({}) panicked: {}", o.name, show(ty, a), m)) }
        else { w.note(if by_zero(m) { "reported: division by zero" } else if m.contains("finite") { "reported: scalar not finite" } else { "reported: not representable" }, 1) }
    } else { w.note("values returned", 1) }
    w.judged(o.name, ty.name, a, true, false);
    quick
}

fn main() {
    mon::run("C21", "one call of one public entry point of one type on arbitrary arguments: extremes, random bit patterns, NaN, infinities, zeros; CPU time and kind of termination observed; every raw pattern of the 8 and 16 bit formats for functions of one number; distinct argument tuples", |ctx| {
        let n = ctx.n(1000, 150_000);
        let mut jobs: Vec<Job> = vec![];
        for t in all_tables!() {
            jobs.push(Box::new(move |w: &mut W| {
                let ty = t[0].ty;
                let k = match ty.kind { Kind::F32 | Kind::F64 => 30, Kind::Int => 8, _ => 1 };
                'op: for o in &t {
                    if !ty.is_float() && o.tag == "1" && ty.bits <= 16 { for r in gen::all_raw(&ty) { if !judge(w, o, &[r, 0, 0, 0]) { continue 'op } } w.op_count(o.name, 1 << ty.bits) }
                    for _ in 0..n * k {
                        let mut r = w.rng.clone();
                        let a = api::hostile(o, &mut r);
                        w.rng = r;
                        if !judge(w, o, &a) { continue 'op }
                    }
                    w.op_count(o.name, n * k);
                }
            }));
        }
        jobs
    })
}
