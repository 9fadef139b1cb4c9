//! C06: conversion between cartesian and polar form, magnitude and argument.
use mixed_num::*;
use mixed_num_mon::{tr::*, *};
use std::f64::consts::PI;

fn ops<T: Full>() -> Vec<Op> {
    use mixed_num::complex as k;
    let mut v = vec![];
    tab!(v, T, "mag";
        "Cartesian::mag" => |a| ox(c::<T>(a, 0).mag()),
        "Cartesian::abs" => |a| ox(Mag::abs(&c::<T>(a, 0))),
        "ops::abs" => |a| ox(k::abs(c::<T>(a, 0))));
    tab!(v, T, "mixed_abs"; "Cartesian::mixed_abs" => |a| oc(c::<T>(a, 0).mixed_abs()));
    tab!(v, T, "arg";
        "Cartesian::arg" => |a| ox(c::<T>(a, 0).arg()),
        "Cartesian::ang" => |a| ox(c::<T>(a, 0).ang()));
    tab!(v, T, "polar";
        "Cartesian::to_polar" => |a| op(c::<T>(a, 0).to_polar()),
        "ops::to_polar" => |a| op(k::to_polar(c::<T>(a, 0))),
        "Polar::new_from_cartesian" => |a| op(<Polar<T> as NewFromCartesian<T>>::new_from_cartesian(x(a, 0), x(a, 1))));
    tab!(v, T, "cart";
        "Polar::to_cartesian" => |a| oc(p::<T>(a, 0).to_cartesian()),
        "ops::to_cartesian" => |a| oc(k::to_cartesian(p::<T>(a, 0))),
        "Cartesian::new_from_polar" => |a| oc(<Cartesian<T> as NewFromPolar<T>>::new_from_polar(x(a, 0), x(a, 1))));
    tab!(v, T, "id c";
        "Cartesian::to_cartesian" => |a| oc(c::<T>(a, 0).to_cartesian()),
        "Cartesian::new_from_cartesian" => |a| oc(<Cartesian<T> as NewFromCartesian<T>>::new_from_cartesian(x(a, 0), x(a, 1))),
        "Cartesian::new" => |a| oc(Cartesian::<T>::new(x(a, 0), x(a, 1))),
        "Polar::to_polar" => |a| op(p::<T>(a, 0).to_polar()),
        "Polar::new" => |a| op(Polar::<T>::new(x(a, 0), x(a, 1))),
        "Polar::new_from_polar" => |a| op(<Polar<T> as NewFromPolar<T>>::new_from_polar(x(a, 0), x(a, 1))),
        "Polar mag, ang" => |a| { let z = p::<T>(a, 0); ox2((z.mag(), z.ang())) },
        "Polar abs, arg" => |a| { let z = p::<T>(a, 0); ox2((Mag::abs(&z), z.arg())) });
    tab!(v, T, "mag only"; "Polar::mixed_abs" => |a| op(p::<T>(a, 0).mixed_abs()));
    tab!(v, T, "round";
        "to_polar then to_cartesian" => |a| oc(c::<T>(a, 0).to_polar().to_cartesian()));
    v
}

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let (re, im) = (ty.val(a[0]), ty.val(a[1]));
    let a = &a[..2];
    let full = [a[0], a[1], 0, 0];
    if o.tag == "id c" || o.tag == "mag only" {
        let e = [a[0], if o.tag == "mag only" { 0 } else { a[1] }];
        match w.call(o.name, ty.name, a, || (o.f)(&full)) {
            Out::Ok(r) if same(ty, r[0], e[0], true) && same(ty, r[1], e[1], true) => {}
            r => w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave {:?}, expected {:?}", o.name, show(ty, a), r, e)),
        }
        w.judged(o.name, ty.name, a, a[0] != 0 || a[1] != 0, en);
        return
    }
    if o.tag == "cart" {
        // re is the magnitude, im the angle
        if ty.is_float() {
            let (lo, hi) = if ty.kind == Kind::F32 { (1e-30, 1e30) } else { (1e-290, 1e290) };
            if !(im.abs() < 1e5) || !(re.abs() < hi) || (re != 0.0 && re.abs() < lo) { w.skip(); return }
        }
        let t = tol::polar_component(ty, re, im);
        let (s, cc) = im.sin_cos();
        // the product of the magnitude with a rounded sine must fit
        if !ty.is_float() && re.abs() + t > ty.max() - ty.ulp() { w.skip(); return }
        verdict(w, o, a, &[(re * cc, t), (re * s, t)], if ty.is_float() { "to_cartesian float" } else { "to_cartesian" }, en);
        return
    }
    // infinite numbers have an infinite magnitude and still an angle
    if ty.is_float() && (re.is_infinite() || im.is_infinite()) && !re.is_nan() && !im.is_nan() && matches!(o.tag, "mag" | "arg" | "polar") {
        let (m, g) = (f64::INFINITY, im.atan2(re));
        let near = |x: f64, e: f64| x == e || (x - e).abs() <= 3.0 * ty.quantum(PI);
        match w.call(o.name, ty.name, a, || (o.f)(&full)) {
            Out::Ok(r) if match o.tag { "mag" => ty.val(r[0]) == m, "arg" => near(ty.val(r[0]), g), _ => ty.val(r[0]) == m && near(ty.val(r[1]), g) } => {}
            r => w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave {:?}, expected magnitude {} angle {:e}", o.name, show(ty, a), r, m, g)),
        }
        w.note("infinite numbers", 1);
        w.judged(o.name, ty.name, a, true, en);
        return
    }
    let extreme = !ty.is_float() && (a[0] == ty.rmin() || a[1] == ty.rmin());
    let s = re.hypot(im);
    let mt = tol::mag(ty, s);
    // the angle of the origin is not specified
    let origin = re == 0.0 && im == 0.0;
    let (re0, im0) = (if re == 0.0 { 0.0 } else { re }, if im == 0.0 { 0.0 } else { im });
    let arg = im0.atan2(re0);
    let mut at = if ty.is_float() { 3.0 * ty.quantum(PI) } else { tol::atan(ty) };
    if ty.is_float() && im == 0.0 && a[1] != 0 { at = 7.0 } // minus zero: the other side of the cut
    match o.tag {
        "mag" | "mixed_abs" => {
            if !tol::mag_fits(ty, re, im) || s + mt > ty.max() { w.skip(); return }
            let e = [(s, mt), (0.0, 0.0)];
            verdict(w, o, a, &e[..if o.tag == "mag" { 1 } else { 2 }], if ty.is_float() { "mag float" } else { "mag" }, en);
        }
        "arg" => {
            if origin || extreme || !re.is_finite() || !im.is_finite() { w.skip(); return }
            verdict(w, o, a, &[(arg, at)], if ty.is_float() { "arg float" } else { "arg" }, en);
        }
        "polar" => {
            if !tol::mag_fits(ty, re, im) || s + mt > ty.max() || extreme { w.skip(); return }
            if origin { at = 3.2 }
            verdict(w, o, a, &[(s, mt), (arg, at)], if ty.is_float() { "to_polar float" } else { "to_polar" }, en);
        }
        _ => {
            if !tol::mag_fits(ty, re, im) || s + mt > ty.max() || extreme || origin { w.skip(); return }
            if ty.is_float() && im == 0.0 { at = 3.0 * ty.quantum(PI) } // either side of the cut is the same number
            let t = mt + s * at + tol::polar_component(ty, s + mt, PI);
            if !ty.is_float() && s + mt + t > ty.max() { w.skip(); return }
            verdict(w, o, a, &[(re, t), (im, t)], if ty.is_float() { "round trip float" } else { "round trip" }, en);
        }
    }
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    let mut a = gen::tuple(ty, r, 2);
    if o.tag == "cart" {
        a[1] = gen::unary(ty, r);
        if r.chance(8) { a[0] = gen::neg(ty, a[0]) }
    } else if r.chance(6) {
        // a point given by magnitude and angle: all octants, near the axes and the diagonals
        let m = if r.chance(2) { r.logu(ty.quantum(1.0).max(1e-6) * 4.0, (ty.max() / 2.0).sqrt().min(1e9)) } else { r.uni(0.0, (ty.max() / 2.0).sqrt().min(100.0)) };
        let th = r.range(-8, 8) as f64 * PI / 8.0 + if r.chance(2) { 0.0 } else { r.uni(-1e-3, 1e-3) };
        a[0] = ty.enc(m * th.cos()); a[1] = ty.enc(m * th.sin());
    } else if ty.is_float() && r.chance(20) {
        let (i, s) = (r.below(2) as usize, if r.chance(2) { f64::INFINITY } else { f64::NEG_INFINITY });
        a[i] = ty.enc(s);
        if r.chance(3) { a[1 - i] = ty.enc(if r.chance(2) { f64::INFINITY } else { f64::NEG_INFINITY }) }
    }
    a
}

fn main() {
    mon::run("C06", "one conversion, magnitude or argument of one complex number in one type by one entry point, the squared magnitude being representable; every pair of the 8 bit formats is enumerated; non-trivial: the number is not zero", |ctx| {
        let mut tabs = floats!(ops);
        tabs.extend(signed_fixed!(ops));
        drive(tabs, ctx.n(14_000, 1_000_000), |_| 2, gen, judge)
    })
}
