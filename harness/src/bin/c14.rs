//! C14: polynomial sine and cosine.
use mixed_num_mon::{tr::*, *};
use std::f64::consts::PI;

fn ops<T: Full>() -> Vec<Op> {
    let mut v = vec![];
    if T::ty().max() < 120.0 { return v } // the series needs the constant 120
    tab!(v, T, "sin"; "trigonometry::sin" => |a| ox(mixed_num::trigonometry::sin(x::<T>(a, 0))));
    tab!(v, T, "cos"; "trigonometry::cos" => |a| ox(mixed_num::trigonometry::cos(x::<T>(a, 0))));
    v
}

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let v = ty.val(a[0]);
    let u = ty.quantum(1.0);
    if o.tag == "sin" {
        if !(v.abs() <= PI) { w.skip(); return }
        verdict(w, o, &a[..1], &[(v.sin(), 4.3e-6 + 3.0 * u)], "sin", en);
    } else {
        // x + pi/2 must be representable; for floats the wrap loses |x| eps
        if ty.is_float() { if !(v.abs() < 1e4) { w.skip(); return } }
        else if a[0] + (1.6 / ty.ulp()).ceil() as i128 + 1 > ty.rmax() { w.skip(); return }
        let red = if ty.is_float() { 4.0 * ty.quantum(v.abs() + 2.0) } else { tol::reduction(ty, v.abs() + 1.6) + 2.3e-16 * v.abs() };
        verdict(w, o, &a[..1], &[(v.cos(), 4.3e-6 + 3.0 * u + red)], "cos", en);
    }
}

fn main() {
    mon::run("C14", "one polynomial sine or cosine of one angle in one type which can hold the series' constant 120; every raw pattern of the 8 and 16 bit formats; non-trivial: angle differs from zero", |ctx| {
        let mut tabs = floats!(ops);
        tabs.extend(signed_fixed!(ops));
        drive(tabs, ctx.n(100_000, 8_000_000), |_| 1, |o, r| {
            let ty = &o.ty;
            [match r.below(4) { 0 => gen::within(ty, r, PI), 1 => { let k = r.range(-8, 8) as f64 * PI / 4.0; gen::step(ty, ty.enc(k), r.range(-4, 4)) } _ => gen::unary_fin(ty, r) }, 0, 0, 0]
        }, judge)
    })
}
