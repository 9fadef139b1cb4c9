//! C10: sign, absolute value, extremes and constants.
use mixed_num::*;
use mixed_num_mon::*;

trait R: El + MixedReal + MixedAbs + MixedZero + MixedOne {}
impl<T: El + MixedReal + MixedAbs + MixedZero + MixedOne> R for T {}

fn real<T: R>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "sign"; "mixed_sign" => |a| ox(x::<T>(a, 0).mixed_sign()), "trigonometry::sign" => |a| ox(mixed_num::trigonometry::sign(x::<T>(a, 0))));
    tab!(v, T, "abs"; "mixed_abs" => |a| ox(x::<T>(a, 0).mixed_abs()));
    tab!(v, T, "is"; "mixed_is_positive/negative" => |a| [x::<T>(a, 0).mixed_is_positive() as i128, x::<T>(a, 0).mixed_is_negative() as i128, 0, 0]);
    tab!(v, T, "max"; "mixed_max_value" => |_| ox(T::mixed_max_value()));
    tab!(v, T, "min"; "mixed_min_value" => |_| ox(T::mixed_min_value()));
    tab!(v, T, "zero"; "mixed_zero" => |_| ox(T::mixed_zero()));
    tab!(v, T, "one"; "mixed_one" => |_| ox(T::mixed_one()));
    v
}
fn pi<T: El + MixedPi>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "pi"; "mixed_pi" => |_| ox(T::mixed_pi()));
    // some formats hold pi but not tau
    if T::ty().max() > 6.2831853071795864 { tab!(v, T, "tau"; "mixed_tau" => |_| ox(T::mixed_tau())); }
    v
}

/// The correctly rounded constant from 256 bits of pi would differ from an f64 literal by up to 2^-52.
fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let u128_ = ty.bits == 128 && !ty.signed;
    let neg = if ty.is_float() { ty.val(a[0]) < 0.0 } else { !u128_ && a[0] < 0 };
    let nan = ty.is_float() && ty.val(a[0]).is_nan();
    let one = if ty.is_float() { ty.enc(1.0) } else { 1i128 << ty.frac };
    let unary = matches!(o.tag, "sign" | "abs" | "is");
    if o.tag == "sign" && (nan || ty.max() < 1.0) { w.skip(); return }
    if o.tag == "abs" && !ty.is_float() && ty.signed && a[0] == ty.rmin() { w.skip(); return }
    let n = if unary { 1 } else { 0 };
    let r = w.call(o.name, ty.name, &a[..n], || (o.f)(a));
    let fail = |w: &mut W, e: String| w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave {:?}, expected {}", o.name, show(ty, &a[..n]), r, e));
    let Out::Ok(g) = &r else { fail(w, "a value".into()); return };
    match o.tag {
        "sign" => { let e = if neg { gen::neg(ty, one) } else { one }; if !same(ty, g[0], e, false) { fail(w, ty.show(e)) } }
        "abs" => { let e = if ty.is_float() { if ty.kind == Kind::F32 { a[0] & 0x7fff_ffff } else { a[0] & i64::MAX as i128 } } else if neg { -a[0] } else { a[0] }; if !same(ty, g[0], e, true) { fail(w, ty.show(e)) } }
        "is" => {
            let zero = if ty.is_float() { ty.val(a[0]) == 0.0 } else { a[0] == 0 };
            // zero, and nan, have no agreed sign across the types: only nonzero numbers are judged
            if !zero && !nan { let e = [!neg as i128, neg as i128]; if g[..2] != e { fail(w, format!("{:?}", e)) } } else if g[0] == 1 && g[1] == 1 { fail(w, "not both".into()) }
        }
        "max" => { let e = if u128_ { -1 } else if ty.is_float() { ty.enc(ty.max()) } else { ty.rmax() }; if g[0] != e { fail(w, ty.show(e)) } }
        "min" => { let e = if ty.is_float() { ty.enc(ty.min()) } else { ty.rmin() }; if g[0] != e { fail(w, ty.show(e)) } }
        "zero" => if g[0] != 0 { fail(w, "0".into()) },
        "one" => if g[0] != one { fail(w, ty.show(one)) },
        _ => {
            // pi and tau with 64 fractional bits
            let p: u128 = if o.tag == "pi" { 0x3_243F6A8885A308D3 } else { 0x6_487ED5110B4611A6 };
            if ty.is_float() {
                let e = if o.tag == "pi" { std::f64::consts::PI } else { std::f64::consts::TAU };
                if ty.val(g[0]) != if ty.kind == Kind::F32 { e as f32 as f64 } else { e } { fail(w, format!("{:e}", e)) }
            } else {
                // within one quantum, or within the precision of an f64 literal when that is coarser
                let d = ((g[0] << (64 - ty.frac)) - p as i128).unsigned_abs();
                let t = (1u128 << (64 - ty.frac)).max(1 << (64 - 51));
                if d > t { fail(w, format!("{:e} within {:e}", p as f64 / 2f64.powi(64), t as f64 / 2f64.powi(64))) } else { w.max("constants: error / tolerance", d as f64 / t as f64, || format!("{} {}", ty.name, o.name)) }
            }
        }
    }
    w.judged(o.name, ty.name, &a[..n], true, en);
}

fn main() {
    mon::run("C10", "one sign, absolute value, extreme or constant of one type; every raw pattern of the 8 and 16 bit types for sign and absolute value, random patterns, extremes and special floats otherwise", |ctx| {
        let mut tabs = signed_ints!(real);
        tabs.extend(unsigned_ints!(real)); tabs.extend(floats!(real)); tabs.extend(signed_fixed!(real)); tabs.extend(unsigned_fixed!(real));
        let mut consts = floats!(pi); consts.extend(signed_fixed!(pi)); consts.extend(unsigned_fixed!(pi));
        let mut jobs: Vec<Job> = vec![Box::new(move |w: &mut W| for t in &consts { for o in t { judge(w, o, &[0; 4], true); w.op_count(o.name, 1) } })];
        let (mut un, mut nu) = (vec![], vec![]);
        for t in tabs { un.push(t.iter().copied().filter(|o| matches!(o.tag, "sign" | "abs" | "is")).collect::<Vec<_>>()); nu.push(t.iter().copied().filter(|o| !matches!(o.tag, "sign" | "abs" | "is")).collect::<Vec<_>>()) }
        jobs.push(Box::new(move |w: &mut W| for t in &nu { for o in t { judge(w, o, &[0; 4], true); w.op_count(o.name, 1) } }));
        jobs.extend(drive(un, ctx.n(120_000, 4_000_000), |_| 1, |o, r| [if r.chance(3) { gen::unary(&o.ty, r) } else { gen::any(&o.ty, r) }, 0, 0, 0], judge));
        jobs
    })
}
