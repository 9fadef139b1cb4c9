//! C08: phase wrapping.
use mixed_num_mon::{tr::*, *};

fn ops<T: Full>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "wrap";
        "mixed_wrap_phase" => |a| ox(x::<T>(a, 0).mixed_wrap_phase()),
        "trigonometry::wrap_phase" => |a| ox(mixed_num::trigonometry::wrap_phase(x::<T>(a, 0))),
        "wrap of wrapped" => |a| ox(x::<T>(a, 0).mixed_wrap_phase().mixed_wrap_phase()));
    v
}

const PI_Q: f64 = std::f64::consts::PI;

/// The type's own pi as a raw pattern.
fn pi_raw(ty: &Ty) -> i128 { conv::convert(&f64::ty(), PI_Q.to_bits() as i128, ty).unwrap() }

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let p = pi_raw(ty);
    let r = w.call(o.name, ty.name, &a[..1], || (o.f)(a));
    let fail = |w: &mut W, e: String| { let g = match &r { Out::Ok(r) => ty.show(r[0]), Out::Panic(m) => format!("panic ({})", m) };
        w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave {}, expected {}", o.name, ty.show(a[0]), g, e)) };
    let Out::Ok(g) = &r else { fail(w, "a phase".into()); return };
    let g = g[0];
    if !ty.is_float() {
        let e = (a[0] + p).rem_euclid(2 * p) - p;
        if g != e { fail(w, format!("{} (in -pi..pi, whole turns of the type's own 2 pi away)", ty.show(e))) }
        if a[0] < -p || a[0] >= p { w.note("phases outside the range", 1) }
    } else {
        let (v, gv, pi) = (ty.val(a[0]), ty.val(g), ty.val(p));
        if !v.is_finite() {
            // not a phase: only has to return
            if gv.is_finite() && v.is_nan() { fail(w, "nan".into()) }
            w.note("non-finite phases", 1);
        } else if v >= -pi && v < pi {
            if !same(ty, g, a[0], false) { fail(w, "the argument".into()) }
        } else {
            let m = v % (2.0 * pi); // exact
            let d = ((gv - m) / (2.0 * pi)).round() * 2.0 * pi;
            if !(gv >= -pi && gv < pi) { fail(w, "a phase in -pi..pi".into()) }
            else {
                let err = (gv - m - d).abs();
                let t = 3.0 * ty.quantum(pi);
                if !(err <= t) { fail(w, format!("{:e} modulo 2 pi within {:e}", m, t)) } else { w.max("float congruence", err / t, || ty.show(a[0])) }
            }
            w.note("phases outside the range", 1);
        }
    }
    w.judged(o.name, ty.name, &a[..1], a[0] != 0, en);
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    let p = pi_raw(ty);
    let a = match r.below(5) {
        // odd and even multiples of the type's own pi and their neighbours
        0 => { let k = r.range(-2000, 2000) as i128; if ty.is_float() { gen::step(ty, ty.enc(k as f64 * ty.val(p)), r.range(-3, 3)) } else { let m = k * p; let m = if ty.raw_in(m) { m } else { m.rem_euclid(2 * ty.rmax()) - ty.rmax() }; gen::step(ty, m, r.range(-3, 3)) } }
        1 => gen::any(ty, r),
        2 => { let k = r.below(60) as u32; let m = (1i128 << k) * p; if ty.is_float() { gen::step(ty, ty.enc(2f64.powi(k as i32) * ty.val(p)), r.range(-3, 3)) } else if ty.raw_in(m) { gen::step(ty, if r.chance(2) { m } else { -m }, r.range(-2, 2)) } else { gen::any(ty, r) } }
        _ => gen::unary(ty, r),
    };
    [a, 0, 0, 0]
}

fn main() {
    mon::run("C08", "one phase of one type wrapped by one entry point; every raw pattern of the 8 and 16 bit formats, otherwise landmarks around multiples of pi, extremes and random patterns; non-trivial: phase differs from zero", |ctx| {
        let mut tabs = floats!(ops);
        tabs.extend(signed_fixed!(ops));
        drive(tabs, ctx.n(120_000, 12_000_000), |_| 1, gen, judge)
    })
}
