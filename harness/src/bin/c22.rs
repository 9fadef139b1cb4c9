//! C22: the library's generic code with a user defined number type.
use mixed_num_mon::probe::{arm, steps, P, STEP_PANIC};
use mixed_num_mon::{api::*, tr::*, *};

#[derive(Clone, Copy)]
struct Pair { own: Op, probe: Op }
fn pairs(a: Vec<Op>, b: Vec<Op>) -> Vec<Pair> { assert_eq!(a.len(), b.len()); a.into_iter().zip(b).map(|(own, probe)| Pair { own, probe }).collect() }
fn pf<T: Full>() -> Vec<Pair> { let mut v = pairs(cplx::<T>(), cplx::<P<T>>()); v.extend(pairs(full::<T>(), full::<P<T>>())); v }
fn pi<T: Cx>() -> Vec<Pair> { pairs(cplx::<T>(), cplx::<P<T>>()) }
fn pu<T: Un>() -> Vec<Pair> { pairs(unsig::<T>(), unsig::<P<T>>()) }

fn judge(w: &mut W, o: &Pair, a: &A) {
    let ty = &o.own.ty;
    let name = o.own.name;
    // a constant number of operations, plus one per bit of a number, per unit of an exponent or iteration
    let k = if o.own.tag.ends_with('^') { (a[3] as i64).unsigned_abs() } else { 0 };
    let limit = 400 + 24 * ty.bits as u64 * if ty.is_float() { 40 } else { 1 } + 64 * k;
    let e = w.call(name, ty.name, a, || (o.own.f)(a));
    arm(limit);
    let g = w.call(o.probe.name, ty.name, a, || (o.probe.f)(a));
    let n = steps();
    w.note("operations of the user defined type observed", n);
    if k == 0 { w.max(if ty.is_float() { "operations in one call (float)" } else { "operations in one call" }, n as f64, || format!("{} {} {}", name, ty.name, show(ty, a))) }
    if matches!(&g, Out::Panic(m) if m == STEP_PANIC) { w.violate(format!("steps:{}:{}", name, ty.name), format!("{} ({}) asked for more than {} operations", name, show(ty, a), limit)); return }
    let ok = match (&e, &g) {
        (Out::Ok(x), Out::Ok(y)) => (0..4).all(|i| x[i] == y[i] || same(ty, x[i], y[i], true)),
        (Out::Panic(_), Out::Panic(_)) => true,
        _ => false,
    };
    if !ok { w.violate(format!("{}:{}", name, ty.name), format!("{} ({}) gave {:?} for the supported type and {:?} for a user defined type with the same arithmetic", name, show(ty, a), e, g)) }
    w.note(if matches!(e, Out::Ok(_)) { "same value" } else { "both reported an unrepresentable result" }, 1);
    w.judged(name, ty.name, a, true, false);
}

fn main() {
    mon::run("C22", "one call of one generic entry point with a supported type and with a user defined type of the same arithmetic, whose operations are counted; 16 types, arbitrary arguments; distinct argument tuples", |ctx| {
        use fixed::types::extra::*;
        use fixed::*;
        let n = ctx.n(15_000, 1_500_000);
        let tabs: Vec<Vec<Pair>> = vec![pf::<f32>(), pf::<f64>(), pf::<FixedI8<U4>>(), pf::<FixedI16<U0>>(), pf::<FixedI16<U8>>(), pf::<FixedI16<U12>>(), pf::<FixedI32<U10>>(), pf::<FixedI32<U22>>(), pf::<FixedI32<U29>>(), pf::<FixedI64<U16>>(), pf::<FixedI64<U32>>(), pf::<FixedI64<U61>>(),
            pi::<i8>(), pi::<i32>(), pi::<i128>(), pu::<u16>(), pu::<FixedU16<U9>>(), pu::<FixedU64<U40>>()];
        let mut jobs: Vec<Job> = vec![];
        for t in tabs { for part in 0..4 {
            let t = t.clone();
            jobs.push(Box::new(move |w: &mut W| for (i, o) in t.iter().enumerate() {
                if i % 4 != part { continue }
                for _ in 0..n {
                    let mut r = w.rng.clone();
                    let a = hostile(&o.own, &mut r);
                    w.rng = r;
                    judge(w, o, &a);
                }
                w.op_count(o.own.name, n);
            }));
        } }
        jobs
    })
}
