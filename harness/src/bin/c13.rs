//! C13: polynomial arctangents.
use mixed_num_mon::{tr::*, *};
use std::f64::consts::PI;

fn ops<T: Full>() -> Vec<Op> {
    use mixed_num::trigonometry::atan;
    let mut v = vec![];
    tab!(v, T, "atan2"; "atan::atan2" => |a| ox(atan::atan2(x::<T>(a, 0), x::<T>(a, 1))),
        "mixed_atan2_poly" => |a| ox(x::<T>(a, 0).mixed_atan2_poly(x::<T>(a, 1))));
    tab!(v, T, "atan"; "atan::atan" => |a| ox(atan::atan(x::<T>(a, 0))));
    v
}

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let y = ty.val(a[0]);
    let xx = if o.tag == "atan" { 1.0 } else { ty.val(a[1]) };
    if ty.is_float() {
        if !y.is_finite() || !xx.is_finite() { w.skip(); return }
        // ratios beyond the exponent range underflow to zero, which is within tolerance; subnormals lose bits
        let tiny = if ty.kind == Kind::F32 { 1e-37 } else { 1e-307 };
        if (y != 0.0 && y.abs() < tiny) || (xx != 0.0 && xx.abs() < tiny) { w.skip(); return }
    } else if a[0] == ty.rmin() || a[1] == ty.rmin() { w.skip(); return }
    let n = if o.tag == "atan" { 1 } else { 2 };
    let y = if y == 0.0 { 0.0 } else { y }; // -0 counts as 0
    let xx = if xx == 0.0 { 0.0 } else { xx };
    if y == 0.0 && xx == 0.0 {
        // documented: the origin has angle 0 (any sign of zero allowed, pi for a negative zero)
        match w.call(o.name, ty.name, &a[..n], || (o.f)(a)) {
            Out::Ok(r) if ty.val(r[0]) == 0.0 || (ty.is_float() && a[1] != 0 && (ty.val(r[0]) - PI).abs() < 1e-6) => {}
            r => w.violate(format!("{}:{}", o.name, ty.name), format!("{}(0, 0) gave {:?}", o.name, r)),
        }
        return
    }
    let t = 4.92e-3 + 2.5 * ty.quantum(1.0) + 1e-15;
    let e = y.atan2(xx);
    // exact on the axes
    let t = if y == 0.0 || xx == 0.0 { 1.0 * ty.quantum(PI) + 1e-15 } else { t };
    // near the negative real axis the sign of pi follows y
    verdict(w, o, &a[..n], &[(e, t)], o.tag, en);
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    let mut a = [gen::unary_fin(ty, r), gen::unary_fin(ty, r), 0, 0];
    if r.chance(3) { a = gen::tuple(ty, r, 2) }
    if r.chance(3) { gen::correlate(ty, r, &mut a, 2) }
    a
}

fn main() {
    mon::run("C13", "one polynomial arctangent of one point in one type; every pair of the 8 bit formats and every argument of the 16 bit formats are enumerated; non-trivial: not the origin", |ctx| {
        let mut tabs = floats!(ops);
        tabs.extend(signed_fixed!(ops));
        drive(tabs, ctx.n(60_000, 6_000_000), |o| if o.tag == "atan" { 1 } else { 2 }, gen, judge)
    })
}
