//! The common workload driver: enumerates small formats, samples the others.
use crate::*;

pub type Judge = fn(&mut W, &Op, &A, bool);
pub type Gen = fn(&Op, &mut Rng) -> A;

/// One job per element type and chunk. Functions of one raw argument are enumerated over every raw
/// pattern of formats of at most 16 bits, functions of two over every pair of 8 bit formats;
/// everything else is sampled `n` times from `g`.
pub fn drive(tabs: Vec<Vec<Op>>, n: u64, arity: fn(&Op) -> usize, g: Gen, judge: Judge) -> Vec<Job> {
    let mut jobs: Vec<Job> = vec![];
    let mut tabs = tabs;
    tabs.retain(|t| !t.is_empty());
    tabs.sort_by_key(|t| std::cmp::Reverse(t[0].ty.bits as i64 * 1000 + t[0].ty.frac as i64 + if t[0].ty.is_float() { 100_000 } else { 0 }));
    for t in tabs {
        let ty = t[0].ty;
        let k = match ty.kind { Kind::F32 | Kind::F64 => 24, Kind::Int => 6, _ => 1 };
        // floats and ints have few types: give them more samples, in chunks
        for part in 0..k {
            let t = t.clone();
            jobs.push(Box::new(move |w: &mut W| for o in &t {
                let ar = arity(o);
                let exact = !ty.is_float();
                if exact && ar == 1 && ty.bits <= 16 {
                    if part == 0 { for a in gen::all_raw(&ty) { judge(w, o, &[a, 0, 0, 0], true) } w.op_count(o.name, 1 << ty.bits); }
                    continue
                }
                if exact && ar == 2 && ty.bits == 8 {
                    if part == 0 { for a in gen::all_raw(&ty) { for b in gen::all_raw(&ty) { judge(w, o, &[a, b, 0, 0], true) } } w.op_count(o.name, 65536); }
                    continue
                }
                for i in 0..n {
                    let mut r = w.rng.clone();
                    let mut a = g(o, &mut r);
                    w.rng = r;
                    for x in a.iter_mut().skip(ar) { *x = 0 }
                    judge(w, o, &a, false);
                    if i == 7 && w.wants_sample() { if let Out::Ok(r) = w.call(o.name, ty.name, &a[..ar], || (o.f)(&a)) { w.sample(format!("{} ({}) -> [{}, {}]", o.name, show(&ty, &a[..ar]), ty.show(r[0]), ty.show(r[1]))) } }
                }
                w.op_count(o.name, n);
            }));
        }
    }
    jobs
}

/// Record the outcome of one judged call: `exp` are (expected, tolerance) per output.
pub fn verdict(w: &mut W, o: &Op, a: &[i128], exp: &[(f64, f64)], label: &str, enumerated: bool) {
    let ty = &o.ty;
    let mut b = [0i128; 4];
    b[..a.len()].copy_from_slice(a);
    match w.call(o.name, ty.name, a, || (o.f)(&b)) {
        Out::Panic(m) => w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) panicked: {}; expected {:e}", o.name, show(ty, a), m, exp[0].0)),
        Out::Ok(r) => for (i, (e, t)) in exp.iter().enumerate() {
            let g = ty.val(r[i]);
            let err = (g - e).abs();
            if !(err <= *t) { w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave [{}] = {:e}, expected {:e} within {:e}", o.name, show(ty, a), ty.show(r[i]), g, e, t)) }
            else if *t > 0.0 { w.max(label, err / t, || format!("{} {} ({})", ty.name, o.name, show(ty, a))) }
        },
    }
    w.judged(o.name, ty.name, a, a.iter().any(|x| *x != 0), enumerated);
}
