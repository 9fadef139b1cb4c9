//! C18: exponential of a complex number.
use mixed_num::*;
use mixed_num_mon::{tr::*, *};

fn ops<T: Full>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "exp"; "Cartesian::mixed_exp" => |a| oc(c::<T>(a, 0).mixed_exp()));
    tab!(v, T, "conj"; "exp of conj" => |a| { let z: Cartesian<T> = c::<T>(a, 0).conj(); oc(z.mixed_exp()) });
    tab!(v, T, "parts"; "exp times cis" => |a| { let z = c::<T>(a, 0).mixed_exp(); [z.re.to(), z.im.to(), x::<T>(a, 0).mixed_exp().to(), 0] });
    v
}

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let (re, im) = (ty.val(a[0]), ty.val(a[1]));
    if ty.is_float() {
        // phases beyond 2^20 turns are left to C16
        let lim = if ty.kind == Kind::F32 { 87.0 } else { 700.0 };
        if !(re.abs() < lim && im.abs() < 1e6) { w.skip(); return }
    } else {
        // the documented domain of the fixed point sine and exponential; MIN has no negation
        if !tol::exp_fits(ty, re) || re.exp() + tol::exp(ty, re) + ty.ulp() > ty.max() || a[0] == ty.rmin() || a[1] == ty.rmin() { w.skip(); return }
        if 1.0 + tol::sincos(ty, im) + ty.ulp() > ty.max() { w.skip(); return }
    }
    let m = re.exp();
    let (te, ts) = if ty.is_float() { (4.0 * ty.quantum(m), 4.0 * ty.quantum(1.0) * 0.5 ) } else { (tol::exp(ty, re), tol::sincos(ty, im)) };
    let t = te * (1.0 + ts) + m * ts + ty.quantum(m);
    if t < 0.05 * m && m > ty.ulp() * 16.0 { w.note("exponentials with a tolerance below 5% of the magnitude", 1) }
    match o.tag {
        "exp" => verdict(w, o, &a[..2], &[(m * im.cos(), t), (m * im.sin(), t)], if ty.is_float() { "float" } else { "fixed" }, en),
        "conj" => verdict(w, o, &a[..2], &[(m * im.cos(), t), (-m * im.sin(), t)], if ty.is_float() { "float" } else { "fixed" }, en),
        _ => {
            // |exp z| = exp re, with the type's own real exponential
            match w.call(o.name, ty.name, &a[..2], || (o.f)(a)) {
                Out::Ok(r) => {
                    let (x, y, s) = (ty.val(r[0]), ty.val(r[1]), ty.val(r[2]));
                    let d = (x.hypot(y) - s.abs()).abs();
                    let tt = 2.0 * (s.abs() * ts + 2.0 * ty.quantum(s)) ;
                    if !(d <= tt) { w.violate(format!("{}:{}", o.name, ty.name), format!("|exp({})| = {:e} but exp(re) = {:e}", show(ty, &a[..2]), x.hypot(y), s)) }
                    else { w.max("modulus", d / tt, || format!("{} ({})", ty.name, show(ty, &a[..2]))) }
                    w.judged(o.name, ty.name, &a[..2], a[0] != 0 || a[1] != 0, en);
                }
                Out::Panic(m) => w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) panicked: {}", o.name, show(ty, &a[..2]), m)),
            }
        }
    }
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    let top = if ty.kind == Kind::F32 { 88.0 } else if ty.kind == Kind::F64 { 700.0 } else { ty.max().ln() };
    let re = match r.below(5) { 0 => r.uni(-top, top), 1 => r.range(-8, (top as i64).max(1)) as f64, 2 => r.uni(-1.0, 1.0), 3 => r.uni(-4.0, top), _ => r.uni(top * 0.5, top) };
    let mut a = [ty.enc(re.clamp(ty.min(), ty.max())), gen::unary_fin(ty, r), 0, 0];
    if r.chance(8) { a = gen::tuple(ty, r, 2) }
    if r.chance(8) { a[r.below(2) as usize] = 0 }
    a
}

fn main() {
    mon::run("C18", "the exponential of one complex number of one signed type by one entry point, exp(re) being representable; every pair of the 8 bit formats; non-trivial: not zero", |ctx| {
        let mut tabs = floats!(ops);
        tabs.extend(signed_fixed!(ops));
        drive(tabs, ctx.n(30_000, 2_000_000), |_| 2, gen, judge)
    })
}
