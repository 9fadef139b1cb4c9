//! C05: products and quotients of complex numbers in polar form.
use mixed_num::*;
use mixed_num_mon::{tr::*, *};

trait Pol: Signed + MixedReal {}
impl<T: Signed + MixedReal> Pol for T {}

fn exact<T: Pol>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "pp";
        "Polar * Polar" => |a| op(p::<T>(a, 0) * p::<T>(a, 2)),
        "ops::mul_polar" => |a| op(mixed_num::complex::mul_polar(p::<T>(a, 0), p::<T>(a, 2))));
    tab!(v, T, "ps"; "Polar * scalar" => |a| op(p::<T>(a, 0) * x::<T>(a, 2)));
    tab!(v, T, "pd"; "Polar / scalar" => |a| op(p::<T>(a, 0) / x::<T>(a, 2)));
    v
}
fn full<T: Full>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "cp";
        "Cartesian * Polar" => |a| oc(c::<T>(a, 0) * p::<T>(a, 2)),
        "Cartesian * &Polar" => |a| oc(c::<T>(a, 0) * &p::<T>(a, 2)),
        "Cartesian * &mut Polar" => |a| oc(c::<T>(a, 0) * &mut p::<T>(a, 2)),
        "Cartesian *= Polar" => |a| { let mut z = c::<T>(a, 0); z *= p::<T>(a, 2); oc(z) },
        "Cartesian *= &Polar" => |a| { let mut z = c::<T>(a, 0); z *= &p::<T>(a, 2); oc(z) },
        "Cartesian *= &mut Polar" => |a| { let mut z = c::<T>(a, 0); z *= &mut p::<T>(a, 2); oc(z) });
    tab!(v, T, "pc"; "Polar * Cartesian" => |a| op(p::<T>(a, 0) * c::<T>(a, 2)));
    v
}

fn bad(w: &mut W, o: &Op, a: &[i128], g: &Out<A>, e: String) {
    let ty = &o.ty;
    let g = match g { Out::Ok(r) => show(ty, &r[..2]), Out::Panic(m) => format!("panic ({})", m) };
    w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave {}, expected {}", o.name, show(ty, a), g, e))
}

/// raw product within one quantum (exact for ints), raw quotient likewise; None: not representable
fn near_mul(ty: &Ty, x: i128, y: i128) -> Option<(f64, f64)> {
    if ty.is_float() {
        let e = if ty.kind == Kind::F32 { (f32::from_bits(x as u32) * f32::from_bits(y as u32)) as f64 } else { ty.val(x) * ty.val(y) };
        return Some((e, 0.0))
    }
    let p = x.checked_mul(y)?;
    let g = (ty.frac > 0) as i128;
    let q = p >> ty.frac;
    if q - g < ty.rmin() || q + g > ty.rmax() { return None }
    Some((p as f64 * ty.ulp() * ty.ulp(), g as f64 * ty.ulp()))
}
fn near_div(ty: &Ty, x: i128, y: i128) -> Option<(f64, f64)> {
    if ty.is_float() {
        let e = if ty.kind == Kind::F32 { (f32::from_bits(x as u32) / f32::from_bits(y as u32)) as f64 } else { ty.val(x) / ty.val(y) };
        return Some((e, 0.0))
    }
    if x == i128::MIN { return None }
    let q = (x << ty.frac) / y;
    let g = (ty.frac > 0) as i128;
    if q - g < ty.rmin() || q + g > ty.rmax() { return None }
    if ty.frac == 0 { return Some((q as f64, 0.0)) }
    Some((x as f64 / y as f64, ty.ulp()))
}

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let v: Vec<f64> = a.iter().map(|x| ty.val(*x)).collect();
    let zero = |i: usize| if ty.is_float() { v[i] == 0.0 } else { a[i] == 0 };
    let n = if o.tag == "ps" || o.tag == "pd" { 3 } else { 4 };
    // slack of comparing large integers in f64
    let sl = |e: f64| if ty.is_float() { 0.0 } else { e.abs() * 4e-16 };
    match o.tag {
        "pp" => {
            if zero(0) || zero(2) {
                let r = w.call(o.name, ty.name, a, || (o.f)(a));
                match &r { Out::Ok(r) if r[0] == 0 && r[1] == 0 => {}, r => bad(w, o, a, r, "0, 0".into()) }
                w.note("products with a zero magnitude", 1);
            } else {
                let Some(m) = near_mul(ty, a[0], a[2]) else { w.skip(); return };
                let ang = if ty.is_float() { if ty.kind == Kind::F32 { ty.enc((v[1] as f32 + v[3] as f32) as f64) } else { ty.enc(v[1] + v[3]) } }
                    else { match a[1].checked_add(a[3]) { Some(s) if ty.raw_in(s) => s, _ => { w.skip(); return } } };
                let r = w.call(o.name, ty.name, a, || (o.f)(a));
                match &r { Out::Ok(r) if { let g = ty.val(r[0]); (g - m.0).abs() <= m.1 + sl(m.0) || g == m.0 || (g.is_nan() && m.0.is_nan()) } && same(ty, r[1], ang, false) => {},
                    r => bad(w, o, a, r, format!("{:e}, {}", m.0, ty.show(ang))) }
            }
        }
        "ps" | "pd" => {
            let (m, t) = if o.tag == "ps" { match near_mul(ty, a[0], a[2]) { Some(m) => m, None => { w.skip(); return } } }
                else if zero(2) { w.note("quotients by zero", 1); (ty.max(), 0.0) }
                else { match near_div(ty, a[0], a[2]) { Some(m) => m, None => { w.skip(); return } } };
            let r = w.call(o.name, ty.name, &a[..3], || (o.f)(a));
            match &r { Out::Ok(r) if { let g = ty.val(r[0]); (g - m).abs() <= t + sl(m) || g == m || (g.is_nan() && m.is_nan()) } && same(ty, r[1], a[1], true) => {},
                r => bad(w, o, &a[..3], r, format!("{:e}, {}", m, ty.show(a[1]))) }
        }
        "cp" => {
            let (m, th) = (v[2], v[3]);
            if ty.is_float() {
                let (lo, hi) = if ty.kind == Kind::F32 { (1e-15, 1e15) } else { (1e-120, 1e120) };
                if !(th.abs() < 1e4) || [v[0], v[1], m].iter().any(|x| !(x.abs() < hi) || (*x != 0.0 && x.abs() < lo)) { w.skip(); return }
            }
            let (s, cth) = th.sin_cos();
            let (mr, mi) = (m * cth, m * s);
            let e = tol::polar_component(ty, m, th);
            let q = ty.quantum(1.0);
            // the value of the polar operand and every product and sum must fit
            let lim = ty.max() - 4.0 * q;
            let sum = (v[0].abs() + v[1].abs()) * (m.abs() + 2.0 * e);
            if !ty.is_float() && !(m.abs() + 2.0 * e < lim && sum + 3.0 * q < lim) { w.skip(); return }
            let t = (v[0].abs() + v[1].abs()) * e + if ty.is_float() { 3.0 * q * sum } else { 2.02 * q };
            let r = [(v[0] * mr - v[1] * mi, t), (v[0] * mi + v[1] * mr, t)];
            if !(t.is_finite()) { w.skip(); return }
            verdict(w, o, a, &r, if ty.is_float() { "cartesian*polar float" } else { "cartesian*polar fixed" }, en);
            return
        }
        _ => {
            if !tol::mag_fits(ty, v[2], v[3]) || !v[0].is_finite() || !v[1].is_finite() { w.skip(); return }
            if !ty.is_float() && (a[2] == ty.rmin() || a[3] == ty.rmin()) { w.skip(); return }
            if ty.is_float() { let hi = if ty.kind == Kind::F32 { 1e15 } else { 1e120 }; if v[0].abs() > hi || v[1].abs() > 1e6 || (v[0] != 0.0 && v[0].abs() < 1.0 / hi) { w.skip(); return } }
            let s = v[2].hypot(v[3]);
            let mt = tol::mag(ty, s);
            let q = if ty.is_float() { ty.quantum(v[0] * s) } else { 1.01 * ty.ulp() };
            if v[0] == 0.0 || s == 0.0 {
                let r = w.call(o.name, ty.name, a, || (o.f)(a));
                match &r { Out::Ok(r) if r[0] == 0 && r[1] == 0 => {}, r => bad(w, o, a, r, "0, 0".into()) }
                w.judged(o.name, ty.name, a, true, en);
                return
            }
            // a magnitude which may round to zero makes the product zero
            if mt >= s { w.skip(); return }
            let at = if ty.is_float() { 4.0 * ty.quantum(std::f64::consts::PI) + ty.quantum(v[1]) } else { tol::atan(ty) };
            let arg = v[3].atan2(v[2]);
            let (m, t) = (v[0] * s, v[0].abs() * mt + q);
            if !ty.is_float() && (m.abs() + t >= ty.max() || (v[1] + arg).abs() + at >= ty.max()) { w.skip(); return }
            // atan2 may be off by a whole turn only on the cut, which +0 keeps on the positive side
            if v[3] == 0.0 && v[2] < 0.0 && ty.is_float() && a[3] != 0 { w.skip(); return }
            if ty.is_float() { verdict(w, o, a, &[(m, t), (v[1] + arg, at)], "polar*cartesian", en); return }
            // the angle is compared as a difference of raw patterns, which is exact
            let r = w.call(o.name, ty.name, a, || (o.f)(a));
            match &r { Out::Ok(r) if (ty.val(r[0]) - m).abs() <= t + sl(m) && ((r[1] - a[1]) as f64 * ty.ulp() - arg).abs() <= at => {
                    w.max("polar*cartesian mag", (ty.val(r[0]) - m).abs() / (t + sl(m)), || format!("{} ({})", ty.name, show(ty, a)));
                    w.max("polar*cartesian ang", ((r[1] - a[1]) as f64 * ty.ulp() - arg).abs() / at, || format!("{} ({})", ty.name, show(ty, a)));
                },
                r => bad(w, o, a, r, format!("{:e} within {:e}, {} + {:e} within {:e}", m, t, ty.show(a[1]), arg, at)) }
        }
    }
    w.judged(o.name, ty.name, &a[..n], a.iter().any(|x| *x != 0), en);
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    let mut a = gen::tuple(ty, r, 4);
    match o.tag {
        "cp" => { if r.chance(4) { a = [gen::within(ty, r, 8.0), gen::within(ty, r, 8.0), gen::within(ty, r, 8.0), 0] } a[3] = gen::unary(ty, r) }
        "pc" | "pp" => { if r.chance(2) { a[1] = gen::unary(ty, r); if o.tag == "pp" { a[3] = gen::unary(ty, r) } } }
        _ => {}
    }
    a
}

fn main() {
    mon::run("C05", "one product or quotient with an operand in polar form by one entry point in one type, operands and results representable; non-trivial: an operand differs from zero", |ctx| {
        let mut tabs = signed_ints!(exact);
        tabs.extend(floats!(exact)); tabs.extend(signed_fixed!(exact));
        tabs.extend(floats!(full)); tabs.extend(signed_fixed!(full));
        drive(tabs, ctx.n(20_000, 1_000_000), |o| if o.tag == "ps" || o.tag == "pd" { 3 } else { 4 }, gen, judge)
    })
}
