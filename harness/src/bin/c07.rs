//! C07: conjugation, neutral elements and the algebra of the complex types.
use mixed_num::*;
use mixed_num_mon::{tr::*, *};

trait Alg: Signed + MixedReal + MixedOne + Default {}
impl<T: Signed + MixedReal + MixedOne + Default> Alg for T {}

fn cj<T: Alg>(z: Cartesian<T>) -> Cartesian<T> { <Cartesian<T> as Conj<Cartesian<T>>>::conj(&z) }
fn pj<T: Alg + MixedWrapPhase + MixedTrigonometry>(z: Polar<T>) -> Polar<T> { <Polar<T> as Conj<Polar<T>>>::conj(&z) }

fn alg<T: Alg>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "conj"; "Cartesian::conj" => |a| oc(cj(c::<T>(a, 0))));
    tab!(v, T, "id";
        "conj of conj" => |a| oc(cj(cj(c::<T>(a, 0)))),
        "z + 0" => |a| oc(c::<T>(a, 0) + Cartesian::<T>::mixed_zero()),
        "0 + z" => |a| oc(Cartesian::<T>::mixed_zero() + c::<T>(a, 0)),
        "z - 0" => |a| oc(c::<T>(a, 0) - Cartesian::<T>::mixed_zero()),
        "z * 1" => |a| oc(c::<T>(a, 0) * Cartesian::<T>::mixed_one()),
        "1 * z" => |a| oc(Cartesian::<T>::mixed_one() * c::<T>(a, 0)),
        "z + default" => |a| oc(c::<T>(a, 0) + Cartesian::<T>::default()),
        "z * to_complex(1)" => |a| oc(c::<T>(a, 0) * Cartesian::<T>::mixed_to_complex(T::mixed_one())),
        "Polar z * 1" => |a| { op(p::<T>(a, 0) * Polar::<T>::mixed_one()) });
    tab!(v, T, "zero";
        "z - z" => |a| oc(c::<T>(a, 0) - c::<T>(a, 0)),
        "z * 0" => |a| oc(c::<T>(a, 0) * Cartesian::<T>::mixed_zero()),
        "z + (0 - z)" => |a| { let z = c::<T>(a, 0); oc(z + (Cartesian::<T>::mixed_zero() - z)) },
        "Polar z * 0" => |a| op(p::<T>(a, 0) * Polar::<T>::mixed_zero()),
        "zero" => |_| oc(Cartesian::<T>::mixed_zero()),
        "Polar zero" => |_| op(Polar::<T>::mixed_zero()),
        "default" => |_| oc(Cartesian::<T>::default()),
        "Polar default" => |_| op(Polar::<T>::default()));
    tab!(v, T, "one"; "one" => |_| oc(Cartesian::<T>::mixed_one()), "Polar one" => |_| op(Polar::<T>::mixed_one()));
    tab!(v, T, "real";
        "Cartesian::mixed_to_complex" => |a| oc(Cartesian::<T>::mixed_to_complex(x(a, 0))),
        "Polar::mixed_to_complex" => |a| op(Polar::<T>::mixed_to_complex(x(a, 0))));
    tab!(v, T, "norm"; "z * conj z" => |a| oc(c::<T>(a, 0) * cj(c::<T>(a, 0))));
    tab!(v, T, "same";
        "z + w and w + z" => |a| { let (r, s) = (c::<T>(a, 0) + c::<T>(a, 2), c::<T>(a, 2) + c::<T>(a, 0)); [r.re.to(), r.im.to(), s.re.to(), s.im.to()] },
        "conj(z + w) and conj z + conj w" => |a| { let (z, w) = (c::<T>(a, 0), c::<T>(a, 2)); let (r, s) = (cj(z + w), cj(z) + cj(w)); [r.re.to(), r.im.to(), s.re.to(), s.im.to()] },
        "conj(z - w) and conj z - conj w" => |a| { let (z, w) = (c::<T>(a, 0), c::<T>(a, 2)); let (r, s) = (cj(z - w), cj(z) - cj(w)); [r.re.to(), r.im.to(), s.re.to(), s.im.to()] });
    tab!(v, T, "back"; "z + w - w" => |a| oc(c::<T>(a, 0) + c::<T>(a, 2) - c::<T>(a, 2)));
    tab!(v, T, "msame";
        "z * w and w * z" => |a| { let (r, s) = (c::<T>(a, 0) * c::<T>(a, 2), c::<T>(a, 2) * c::<T>(a, 0)); [r.re.to(), r.im.to(), s.re.to(), s.im.to()] });
    tab!(v, T, "mconj";
        "conj(z * w) and conj z * conj w" => |a| { let (z, w) = (c::<T>(a, 0), c::<T>(a, 2)); let (r, s) = (cj(z * w), cj(z) * cj(w)); [r.re.to(), r.im.to(), s.re.to(), s.im.to()] });
    tab!(v, T, "cmp"; "eq, partial_cmp" => |a| { let (z, w) = (c::<T>(a, 0), c::<T>(a, 2));
        [(z == w) as i128, (z != w) as i128, z.partial_cmp(&w).map(|o| o as i128).unwrap_or(9), (z < w) as i128 | ((z <= w) as i128) << 1 | ((z > w) as i128) << 2 | ((z >= w) as i128) << 3] },
        "Polar eq, partial_cmp" => |a| { let (z, w) = (p::<T>(a, 0), p::<T>(a, 2));
        [(z == w) as i128, (z != w) as i128, z.partial_cmp(&w).map(|o| o as i128).unwrap_or(9), (z < w) as i128 | ((z <= w) as i128) << 1 | ((z > w) as i128) << 2 | ((z >= w) as i128) << 3] });
    v
}
fn full<T: Full>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "conj"; "Polar::conj" => |a| { let z = p::<T>(a, 0); op(<Polar<T> as Conj<Polar<T>>>::conj(&z)) });
    tab!(v, T, "conj polar";
        "Cartesian::conj to Polar, and Polar of conj" => |a| { let z = c::<T>(a, 0);
            let r = <Cartesian<T> as Conj<Polar<T>>>::conj(&z); let s = Cartesian::new(z.re, -z.im).to_polar(); [r.mag.to(), r.ang.to(), s.mag.to(), s.ang.to()] });
    tab!(v, T, "conj cart";
        "Polar::conj to Cartesian, and Cartesian of conj" => |a| { let z = p::<T>(a, 0);
            let r = <Polar<T> as Conj<Cartesian<T>>>::conj(&z); let s = Polar::new(z.mag, -z.ang).to_cartesian(); [r.re.to(), r.im.to(), s.re.to(), s.im.to()] });
    v
}
fn polar_twice<T: Alg + MixedWrapPhase + MixedTrigonometry>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "id"; "Polar conj of conj" => |a| op(pj(pj(p::<T>(a, 0)))));
    v
}

fn arity(o: &Op) -> usize { match o.tag { "one" => 1, "real" => 1, "same" | "back" | "msame" | "mconj" | "cmp" => 4, "zero" if !o.name.contains("z ") => 1, _ => 2 } }

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let n = arity(o);
    let v: Vec<f64> = a.iter().map(|x| ty.val(*x)).collect();
    let fl = ty.is_float();
    if fl && o.tag != "cmp" && o.tag != "conj" && o.tag != "real" && v[..n].iter().any(|x| !x.is_finite()) { w.skip(); return }
    if !fl && ty.signed && o.tag != "cmp" && o.tag != "real" && a[..n].iter().any(|x| *x == ty.rmin()) { w.skip(); return }
    let one = if fl { ty.enc(1.0) } else { 1i128 << ty.frac };
    let fits = |x: Option<i128>| matches!(x, Some(s) if s > ty.rmin() && s < ty.rmax());
    let prod = |i: usize, j: usize| { a[i].checked_mul(a[j]).map(|p| p >> ty.frac) };
    let fail = |w: &mut W, r: &dyn std::fmt::Debug, e: String| w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) gave {:?}, expected {}", o.name, show(ty, &a[..n]), r, e));
    // domains: every intermediate result must be representable
    if !fl {
        let ok = match o.tag {
            "same" | "back" => if o.name.contains('-') && o.tag == "same" { fits(a[0].checked_sub(a[2])) && fits(a[1].checked_sub(a[3])) } else { fits(a[0].checked_add(a[2])) && fits(a[1].checked_add(a[3])) },
            "msame" | "mconj" => {
                let p = [prod(0, 2), prod(1, 3), prod(0, 3), prod(1, 2)];
                p.iter().all(|x| fits(x.and_then(|x| x.checked_abs()).and_then(|x| x.checked_add(1)))) && fits(p[0].and_then(|x| x.checked_sub(p[1].unwrap())).and_then(|x| x.checked_abs()).and_then(|x| x.checked_add(2)))
                    && fits(p[2].and_then(|x| x.checked_add(p[3].unwrap())).and_then(|x| x.checked_abs()).and_then(|x| x.checked_add(2)))
            }
            "norm" => { let p = [prod(0, 0), prod(1, 1), prod(0, 1)]; p.iter().all(|x| fits(x.and_then(|x| x.checked_abs()).and_then(|x| x.checked_add(1)))) && fits(p[0].and_then(|x| x.checked_add(p[1].unwrap())).and_then(|x| x.checked_add(2))) }
            _ => true,
        };
        if !ok { w.skip(); return }
    } else if matches!(o.tag, "norm" | "msame" | "mconj") {
        let hi = if ty.kind == Kind::F32 { 1e15 } else { 1e120 };
        if v[..n].iter().any(|x| x.abs() > hi || (*x != 0.0 && x.abs() < 1.0 / hi)) { w.skip(); return }
    } else if fl && matches!(o.tag, "same" | "back") && v[..n].iter().any(|x| x.abs() > ty.max() / 4.0) { w.skip(); return }
    if o.tag == "conj polar" && (!tol::mag_fits(ty, v[0], v[1]) || v[0].hypot(v[1]) + tol::mag(ty, v[0].hypot(v[1])) > ty.max()) { w.skip(); return }
    if o.tag == "conj cart" && !fl && v[0].abs() + tol::polar_component(ty, v[0], v[1]) > ty.max() - ty.ulp() { w.skip(); return }
    let r = w.call(o.name, ty.name, &a[..n], || (o.f)(a));
    w.judged(o.name, ty.name, &a[..n], n == 1 || a[..n].iter().any(|x| *x != 0), en);
    let g = match &r { Out::Ok(g) => *g, _ => { fail(w, &r, "a value".into()); return } };
    let is = |w: &mut W, e: [i128; 2], zs: bool| if !same(ty, g[0], e[0], zs) || !same(ty, g[1], e[1], zs) { fail(w, &g, show(ty, &e)) };
    match o.tag {
        "conj" => is(w, [a[0], gen::neg(ty, a[1])], true),
        "id" => { if o.name.starts_with("Polar z * 1") && v[0] == 0.0 { is(w, [0, 0], false) } else { is(w, [a[0], a[1]], false) } }
        "zero" => is(w, [0, 0], false),
        "one" => is(w, [one, 0], false),
        "real" => is(w, [a[0], 0], true),
        "same" | "msame" => is(w, [g[2], g[3]], false),
        "conj polar" | "conj cart" => is(w, [g[2], g[3]], true),
        "back" => if fl {
            for i in 0..2 { let t = 2.0 * ty.quantum(v[i].abs() + v[i + 2].abs()); if !((ty.val(g[i]) - v[i]).abs() <= t) { fail(w, &show(ty, &g[..2]), "z".into()) } }
        } else { is(w, [a[0], a[1]], true) },
        "mconj" => for i in 0..2 {
            // each rounded product may move by one quantum when its sign flips
            let t = if fl || ty.frac == 0 { 0.0 } else { 2.0 };
            let d = if fl { (ty.val(g[i]) - ty.val(g[i + 2])).abs() } else { (g[i] - g[i + 2]).unsigned_abs() as f64 };
            if !(d <= t) { fail(w, &show(ty, &g), "equal parts".into()) }
        },
        "norm" => {
            let im = if fl { ty.val(g[1]).abs() } else { g[1].unsigned_abs() as f64 };
            let (e, t) = if fl { (v[0] * v[0] + v[1] * v[1], 3.0 * ty.quantum(v[0] * v[0] + v[1] * v[1])) } else { (v[0] * v[0] + v[1] * v[1], if ty.frac == 0 { 0.0 } else { 2.0 * ty.ulp() } + 1.5e-15 * (v[0] * v[0] + v[1] * v[1])) };
            if !((ty.val(g[0]) - e).abs() <= t) || im > if fl || ty.frac == 0 { 0.0 } else { 2.0 } { fail(w, &show(ty, &g[..2]), format!("{:e}, 0", e)) }
        }
        "cmp" => {
            let cmp = |i: usize, j: usize| if fl { v[i].partial_cmp(&v[j]) } else { Some(a[i].cmp(&a[j])) };
            let big = ty.bits == 128 && !ty.signed;
            if big { return }
            let ord = match cmp(0, 2) { Some(std::cmp::Ordering::Equal) => cmp(1, 3), o => o };
            let eq = cmp(0, 2) == Some(std::cmp::Ordering::Equal) && cmp(1, 3) == Some(std::cmp::Ordering::Equal);
            use std::cmp::Ordering::*;
            let bits = (ord == Some(Less)) as i128 | (matches!(ord, Some(Less | Equal)) as i128) << 1 | ((ord == Some(Greater)) as i128) << 2 | (matches!(ord, Some(Greater | Equal)) as i128) << 3;
            let e = [eq as i128, !eq as i128, ord.map(|o| o as i128).unwrap_or(9), bits];
            if g != e { fail(w, &g, format!("{:?}", e)) }
        }
        _ => unreachable!(),
    }
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    if o.tag == "cmp" { let mut a = [gen::any(ty, r), gen::any(ty, r), 0, 0]; for i in 2..4 { a[i] = match r.below(3) { 0 => a[i - 2], 1 => gen::step(ty, a[i - 2], r.range(-1, 1)), _ => gen::any(ty, r) } } return a }
    if o.tag == "conj" && r.chance(3) { return [gen::any(ty, r), gen::any(ty, r), 0, 0] }
    gen::tuple(ty, r, 4)
}

fn main() {
    mon::run("C07", "one algebraic law (conjugation, neutral elements, commutativity, comparison) on one tuple of operands of one type, intermediate results being representable; every pair of the 8 bit formats is enumerated for laws of one complex number; non-trivial: an operand differs from zero", |ctx| {
        let mut tabs = signed_ints!(alg);
        tabs.extend(floats!(alg)); tabs.extend(signed_fixed!(alg));
        tabs.extend(floats!(full)); tabs.extend(signed_fixed!(full));
        tabs.extend(floats!(polar_twice)); tabs.extend(signed_fixed!(polar_twice));
        drive(tabs, ctx.n(8_000, 400_000), arity, gen, judge)
    })
}
