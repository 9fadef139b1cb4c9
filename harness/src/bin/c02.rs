//! C02: division of complex numbers.
use mixed_num::*;
use mixed_num_mon::{tr::Signed, *};

trait D: Signed + MixedPowi {}
impl<T: Signed + MixedPowi> D for T {}

fn ops<T: D>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "div";
        "Cartesian / Cartesian" => |a| oc(c::<T>(a, 0) / c::<T>(a, 2)),
        "Cartesian / &Cartesian" => |a| oc(c::<T>(a, 0) / &c::<T>(a, 2)),
        "Cartesian / &mut Cartesian" => |a| oc(c::<T>(a, 0) / &mut c::<T>(a, 2)),
        "Cartesian / num::Complex" => |a| oc(c::<T>(a, 0) / nc::<T>(a, 2)),
        "Cartesian / &num::Complex" => |a| oc(c::<T>(a, 0) / &nc::<T>(a, 2)),
        "Cartesian / &mut num::Complex" => |a| oc(c::<T>(a, 0) / &mut nc::<T>(a, 2)),
        "ops::div_cartesian" => |a| oc(mixed_num::complex::div_cartesian(c::<T>(a, 0), c::<T>(a, 2))),
        "Cartesian /= Cartesian" => |a| { let mut z = c::<T>(a, 0); z /= c::<T>(a, 2); oc(z) },
        "Cartesian /= &Cartesian" => |a| { let mut z = c::<T>(a, 0); z /= &c::<T>(a, 2); oc(z) },
        "Cartesian /= &mut Cartesian" => |a| { let mut z = c::<T>(a, 0); z /= &mut c::<T>(a, 2); oc(z) },
        "Cartesian /= num::Complex" => |a| { let mut z = c::<T>(a, 0); z /= nc::<T>(a, 2); oc(z) },
        "Cartesian /= &num::Complex" => |a| { let mut z = c::<T>(a, 0); z /= &nc::<T>(a, 2); oc(z) },
        "Cartesian /= &mut num::Complex" => |a| { let mut z = c::<T>(a, 0); z /= &mut nc::<T>(a, 2); oc(z) },
    );
    v
}

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let v: Vec<f64> = a.iter().map(|x| ty.val(*x)).collect();
    if ty.is_float() {
        let (lo, hi) = if ty.kind == Kind::F32 { (1e-30, 1e37) } else { (1e-290, 1e300) };
        let d = v[2] * v[2] + v[3] * v[3];
        let p = [v[0] * v[2], v[1] * v[3], v[1] * v[2], v[0] * v[3]];
        if !(d > lo && d < hi) || p.iter().any(|x| !(x.abs() < hi)) || p.iter().any(|x| *x != 0.0 && x.abs() < lo) { w.skip(); return }
        let (re, im) = ((p[0] + p[1]) / d, (p[2] - p[3]) / d);
        let e = 6.0 * ty.quantum(1.0);
        let (tr, ti) = (e * (p[0].abs() + p[1].abs()) / d, e * (p[2].abs() + p[3].abs()) / d);
        let tiny = if ty.kind == Kind::F32 { 1e-44 } else { 1e-322 };
        if !(re.abs() < ty.max() / 4.0 && im.abs() < ty.max() / 4.0) { w.skip(); return }
        verdict(w, o, a, &[(re, tr + tiny), (im, ti + tiny)], "float quotient", en);
        return
    }
    // exact: products at 2*frac fractional bits
    let m = |i: usize, j: usize| -> Option<i128> {
        let p = a[i].checked_mul(a[j])?;
        let q = p >> ty.frac;
        let g = (ty.frac > 0) as i128;
        if q - g < ty.rmin() || q + g > ty.rmax() { None } else { Some(p) }
    };
    let (Some(ac), Some(bd), Some(bc), Some(ad), Some(cc), Some(dd)) = (m(0, 2), m(1, 3), m(1, 2), m(0, 3), m(2, 2), m(3, 3)) else { w.skip(); return };
    let (Some(n0), Some(n1), Some(d)) = (ac.checked_add(bd), bc.checked_sub(ad), cc.checked_add(dd)) else { w.skip(); return };
    let g = if ty.frac > 0 { 2i128 } else { 0 };
    for s in [n0, n1, d] { let q = s >> ty.frac; if q - g < ty.rmin() || q + g > ty.rmax() { w.skip(); return } }
    // the denominator must not vanish in the type
    let dq = d >> ty.frac;
    if dq <= 2 * g { w.skip(); return }
    if ty.frac == 0 {
        // exact quotient truncated towards zero
        if d == -1 { w.skip(); return }
        let e = [n0 / d, n1 / d];
        match w.call(o.name, ty.name, &a[..], || (o.f)(a)) {
            Out::Ok(r) if r[0] == e[0] && r[1] == e[1] => {}
            r => w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave {:?}, expected {:?}", o.name, show(ty, a), r, e)),
        }
        w.judged(o.name, ty.name, a, a.iter().any(|x| *x != 0), en);
        return
    }
    let u = ty.ulp();
    let df = d as f64 * u * u;
    let q = [n0 as f64 * u * u / df, n1 as f64 * u * u / df];
    let mut t = [0f64; 2];
    for i in 0..2 {
        // numerator and denominator are each off by less than 2 quanta, the quotient by one more
        t[i] = (2.0 * u + q[i].abs() * 2.0 * u) / (df - 2.0 * u) + u + q[i].abs() * 1e-15;
        if !(q[i].abs() + t[i] < ty.max()) { w.skip(); return }
    }
    verdict(w, o, a, &[(q[0], t[0]), (q[1], t[1])], "fixed quotient", en);
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    if !ty.is_float() && r.chance(4) {
        // exact quotients: (x + iy)(c + id) / (c + id)
        let s = 1i128 << ty.frac;
        let lim = ((ty.max().sqrt().sqrt() / 2.0) as i64).max(1);
        let [p, q, cc, d] = [0; 4].map(|_: i32| r.range(-lim, lim) as i128);
        let b = [(p * cc - q * d) * s, (p * d + q * cc) * s, cc * s, d * s];
        if b.iter().all(|x| ty.raw_in(*x)) { return b }
    }
    gen::tuple(ty, r, 4)
}

fn main() {
    mon::run("C02", "one division of one pair of complex numbers by one entry point in one type; the squared magnitude of the divisor, the products and the quotient are representable and the divisor does not vanish; non-trivial: an operand differs from zero", |ctx| {
        let mut tabs = signed_ints!(ops);
        tabs.extend(floats!(ops)); tabs.extend(signed_fixed!(ops));
        drive(tabs, ctx.n(24_000, 1_200_000), |_| 4, gen, judge)
    })
}
