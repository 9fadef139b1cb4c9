//! C16: elementary functions of floats against an independent libm.
use mixed_num::*;
use mixed_num_mon::*;

fn ops<T>() -> Vec<Op>
where T: El + MixedSin + MixedCos + MixedTan + MixedSinh + MixedCosh + MixedTanh + MixedAtan + MixedSqrt + MixedCbrt + MixedCeil + MixedFloor + MixedExp + MixedExp10 + MixedExp2 + MixedPow + Mixedlog + Mixedlog10 + Mixedlog2 {
    let mut v = vec![];
    tab!(v, T, "sin"; "mixed_sin" => |a| ox(x::<T>(a, 0).mixed_sin()));
    tab!(v, T, "cos"; "mixed_cos" => |a| ox(x::<T>(a, 0).mixed_cos()));
    tab!(v, T, "sincos"; "mixed_sincos" => |a| ox2(x::<T>(a, 0).mixed_sincos()));
    tab!(v, T, "tan"; "mixed_tan" => |a| ox(x::<T>(a, 0).mixed_tan()));
    tab!(v, T, "asin"; "mixed_asin" => |a| ox(x::<T>(a, 0).mixed_asin()));
    tab!(v, T, "acos"; "mixed_acos" => |a| ox(x::<T>(a, 0).mixed_acos()));
    tab!(v, T, "atan"; "mixed_atan" => |a| ox(x::<T>(a, 0).mixed_atan()));
    tab!(v, T, "atan2"; "mixed_atan2" => |a| ox(x::<T>(a, 0).mixed_atan2(x::<T>(a, 1))));
    tab!(v, T, "sinh"; "mixed_sinh" => |a| ox(x::<T>(a, 0).mixed_sinh()));
    tab!(v, T, "cosh"; "mixed_cosh" => |a| ox(x::<T>(a, 0).mixed_cosh()));
    tab!(v, T, "tanh"; "mixed_tanh" => |a| ox(x::<T>(a, 0).mixed_tanh()));
    tab!(v, T, "asinh"; "mixed_asinh" => |a| ox(x::<T>(a, 0).mixed_asinh()));
    tab!(v, T, "acosh"; "mixed_acosh" => |a| ox(x::<T>(a, 0).mixed_acosh()));
    tab!(v, T, "atanh"; "mixed_atanh" => |a| ox(x::<T>(a, 0).mixed_atanh()));
    tab!(v, T, "sqrt"; "mixed_sqrt" => |a| ox(x::<T>(a, 0).mixed_sqrt()));
    tab!(v, T, "cbrt"; "mixed_cbrt" => |a| ox(x::<T>(a, 0).mixed_cbrt()));
    tab!(v, T, "ceil"; "mixed_ceil" => |a| ox(x::<T>(a, 0).mixed_ceil()));
    tab!(v, T, "floor"; "mixed_floor" => |a| ox(x::<T>(a, 0).mixed_floor()));
    tab!(v, T, "exp"; "mixed_exp" => |a| ox(x::<T>(a, 0).mixed_exp()));
    tab!(v, T, "exp10"; "mixed_exp10" => |a| ox(x::<T>(a, 0).mixed_exp10()));
    tab!(v, T, "exp2"; "mixed_exp2" => |a| ox(x::<T>(a, 0).mixed_exp2()));
    tab!(v, T, "pow"; "mixed_pow" => |a| ox(x::<T>(a, 0).mixed_pow(x::<T>(a, 1))));
    tab!(v, T, "log"; "mixed_log" => |a| ox(x::<T>(a, 0).mixed_log()));
    tab!(v, T, "log10"; "mixed_log10" => |a| ox(x::<T>(a, 0).mixed_log10()));
    tab!(v, T, "log2"; "mixed_log2" => |a| ox(x::<T>(a, 0).mixed_log2()));
    v
}

extern "C" { fn exp10(x: f64) -> f64; fn asinh(x: f64) -> f64; fn acosh(x: f64) -> f64; fn atanh(x: f64) -> f64; }

/// The host's libm in f64; std's own asinh/acosh/atanh and powf(10) lose accuracy, so glibc's.
fn reference(f: &str, x: f64, y: f64) -> f64 {
    // glibc tells signalling NaNs apart (pow(sNaN, 0)); the functions judged here need not
    let quiet = |x: f64| if x.is_nan() { f64::NAN } else { x };
    let (x, y) = (quiet(x), quiet(y));
    match f {
        "sin" | "sincos" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "atan2" => x.atan2(y),
        "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "asinh" => unsafe { asinh(x) }, "acosh" => unsafe { acosh(x) }, "atanh" => unsafe { atanh(x) },
        "sqrt" => x.sqrt(), "cbrt" => x.cbrt(), "ceil" => x.ceil(), "floor" => x.floor(), "exp" => x.exp(), "exp10" => unsafe { exp10(x) }, "exp2" => x.exp2(),
        "pow" => x.powf(y), "log" => x.ln(), "log10" => x.log10(), "log2" => x.log2(),
        _ => unreachable!(),
    }
}
/// Allowed distance in units in the last place.
fn ulps(f: &str) -> f64 {
    match f { "sqrt" | "ceil" | "floor" => 0.0, _ => 4.0 }
}

fn close(ty: &Ty, got: f64, e: f64, k: f64) -> Result<f64, ()> {
    if e.is_nan() || got.is_nan() { return if e.is_nan() && got.is_nan() { Ok(0.0) } else { Err(()) } }
    if ty.kind == Kind::F32 {
        let e32 = e as f32;
        if e32 as f64 == got { return Ok(0.0) }
        // the reference has more precision than the type: distance to the exact value
        let q = (e.abs() * f32::EPSILON as f64).max(1.4e-45);
        if got.is_infinite() || e32.is_infinite() {
            // overflow threshold: the largest finite value and infinity are neighbours
            return if got.signum() == e.signum() && e.abs() > f32::MAX as f64 * (1.0 - 1e-6) && got.abs() > f32::MAX as f64 * (1.0 - 1e-6) { Ok(0.0) } else { Err(()) }
        }
        let d = (got - e).abs() / q;
        if d <= k.max(if k == 0.0 { 0.0 } else { 1.0 }) { Ok(d) } else { Err(()) }
    } else {
        if e == got { return Ok(0.0) }
        if got.is_infinite() || e.is_infinite() {
            return if got.signum() == e.signum() && e.abs() > f64::MAX * (1.0 - 1e-14) && got.abs() > f64::MAX * (1.0 - 1e-14) { Ok(0.0) } else { Err(()) }
        }
        let q = (e.abs() * f64::EPSILON).max(5e-324);
        let d = (got - e).abs() / q;
        if d <= k { Ok(d) } else { Err(()) }
    }
}

fn arity(o: &Op) -> usize { if o.tag == "pow" || o.tag == "atan2" { 2 } else { 1 } }

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let n = arity(o);
    let (xv, yv) = (ty.val(a[0]), ty.val(a[1]));
    let e = reference(o.tag, xv, yv);
    match w.call(o.name, ty.name, &a[..n], || (o.f)(a)) {
        Out::Panic(m) => w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) panicked: {}", o.name, show(ty, &a[..n]), m)),
        Out::Ok(r) => {
            let pairs = if o.tag == "sincos" { vec![(ty.val(r[0]), e), (ty.val(r[1]), xv.cos())] } else { vec![(ty.val(r[0]), e)] };
            for (g, e) in pairs {
                match close(ty, g, e, ulps(o.tag)) {
                    Err(()) => w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave {:e}, the reference is {:e}", o.name, show(ty, &a[..n]), g, e)),
                    Ok(d) => if d > 0.0 { w.max(if ty.kind == Kind::F32 { "ulp f32" } else { "ulp f64" }, d, || format!("{} ({})", o.name, show(ty, &a[..n]))) },
                }
                if e.is_nan() { w.note("NaN results", 1) } else if e.is_infinite() { w.note("infinite results", 1) }
            }
        }
    }
    w.judged(o.name, ty.name, &a[..n], xv != 0.0 && xv.is_finite(), en);
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    let mut a = [gen::unary(ty, r), gen::unary(ty, r), 0, 0];
    match o.tag {
        "asin" | "acos" | "atanh" => if r.chance(2) { a[0] = gen::step(ty, ty.enc(*r.pick(&[1.0, -1.0, 0.5, -0.5, 0.0])), r.range(-1000, 1000)) } else if r.chance(2) { a[0] = ty.enc(r.uni(-1.0, 1.0)) },
        "exp" | "sinh" | "cosh" | "exp2" | "exp10" => if r.chance(2) { let m = (if ty.kind == Kind::F32 { 104.0 } else { 745.2 }) * match o.tag { "exp2" => 1.4427, "exp10" => 0.43429, _ => 1.0 }; a[0] = ty.enc(r.uni(-m, m)) },
        "log" | "log10" | "log2" | "acosh" => if r.chance(3) { a[0] = gen::step(ty, ty.enc(1.0), r.range(-1000, 1000)) } else if r.chance(2) { a[0] = ty.enc(r.logu(if ty.kind == Kind::F32 { 1e-44 } else { 1e-320 }, if ty.kind == Kind::F32 { 3e38 } else { 1e308 })) },
        "pow" => match r.below(4) {
            0 => { a[0] = ty.enc(r.logu(1e-3, 1e3)); a[1] = ty.enc(r.uni(-40.0, 40.0)) }
            1 => { a[1] = ty.enc(r.range(-20, 20) as f64) }
            2 => { a[0] = gen::any_float(ty, r); a[1] = gen::any_float(ty, r) }
            _ => {}
        },
        "ceil" | "floor" => if r.chance(2) { a[0] = gen::step(ty, ty.enc(r.range(-1000, 1000) as f64 * r.pick(&[0.5, 1.0, 1e6])), r.range(-2, 2)) },
        "atan2" => if r.chance(3) { a = gen::tuple(ty, r, 2) } else if r.chance(4) { a = [gen::any_float(ty, r), gen::any_float(ty, r), 0, 0] },
        _ => {}
    }
    a
}

fn main() {
    mon::run("C16", "one call of one elementary function on one argument (pair) of f32 or f64, including zeros, subnormals, infinities and NaN; thorough: every f32 argument of every one-argument function; non-trivial: finite and not zero", |ctx| {
        let mut jobs = drive(floats!(ops), ctx.n(120_000, 4_000_000), arity, gen, judge);
        if ctx.thorough {
            for o in ops::<f32>() {
                if arity(&o) != 1 { continue }
                for part in 0..64u64 {
                    jobs.push(Box::new(move |w: &mut W| {
                        let s = part << 26;
                        for b in s..s + (1 << 26) { judge(w, &o, &[b as i128, 0, 0, 0], true) }
                        w.op_count("every f32", 1 << 26);
                    }));
                }
            }
        }
        jobs
    })
}
