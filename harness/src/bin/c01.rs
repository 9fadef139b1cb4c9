//! C01: complex addition, subtraction and multiplication in every operand form.
use mixed_num::*;
use mixed_num_mon::*;

trait Num: El + MixedNum + MixedNumSigned + MixedOps + MixedZero {}
impl<T: El + MixedNum + MixedNumSigned + MixedOps + MixedZero> Num for T {}

fn signed<T: Num>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "add";
        "Cartesian + Cartesian" => |a| oc(c::<T>(a, 0) + c::<T>(a, 2)),
        "Cartesian + &Cartesian" => |a| oc(c::<T>(a, 0) + &c::<T>(a, 2)),
        "Cartesian + &mut Cartesian" => |a| oc(c::<T>(a, 0) + &mut c::<T>(a, 2)),
        "Cartesian + num::Complex" => |a| oc(c::<T>(a, 0) + nc::<T>(a, 2)),
        "Cartesian + &num::Complex" => |a| oc(c::<T>(a, 0) + &nc::<T>(a, 2)),
        "Cartesian + &mut num::Complex" => |a| oc(c::<T>(a, 0) + &mut nc::<T>(a, 2)),
        "ops::add" => |a| oc(mixed_num::complex::add(c::<T>(a, 0), c::<T>(a, 2))),
        "Cartesian += Cartesian" => |a| { let mut z = c::<T>(a, 0); z += c::<T>(a, 2); oc(z) },
        "Cartesian += &Cartesian" => |a| { let mut z = c::<T>(a, 0); z += &c::<T>(a, 2); oc(z) },
        "Cartesian += &mut num::Complex" => |a| { let mut z = c::<T>(a, 0); z += &mut nc::<T>(a, 2); oc(z) },
    );
    tab!(v, T, "sub";
        "Cartesian - Cartesian" => |a| oc(c::<T>(a, 0) - c::<T>(a, 2)),
        "Cartesian - &Cartesian" => |a| oc(c::<T>(a, 0) - &c::<T>(a, 2)),
        "Cartesian - &mut Cartesian" => |a| oc(c::<T>(a, 0) - &mut c::<T>(a, 2)),
        "Cartesian - num::Complex" => |a| oc(c::<T>(a, 0) - nc::<T>(a, 2)),
        "Cartesian - &num::Complex" => |a| oc(c::<T>(a, 0) - &nc::<T>(a, 2)),
        "Cartesian - &mut num::Complex" => |a| oc(c::<T>(a, 0) - &mut nc::<T>(a, 2)),
        "ops::sub" => |a| oc(mixed_num::complex::sub(c::<T>(a, 0), c::<T>(a, 2))),
        "Cartesian -= Cartesian" => |a| { let mut z = c::<T>(a, 0); z -= c::<T>(a, 2); oc(z) },
        "Cartesian -= &Cartesian" => |a| { let mut z = c::<T>(a, 0); z -= &c::<T>(a, 2); oc(z) },
        "Cartesian -= &mut num::Complex" => |a| { let mut z = c::<T>(a, 0); z -= &mut nc::<T>(a, 2); oc(z) },
    );
    tab!(v, T, "mul";
        "Cartesian * Cartesian" => |a| oc(c::<T>(a, 0) * c::<T>(a, 2)),
        "Cartesian * &Cartesian" => |a| oc(c::<T>(a, 0) * &c::<T>(a, 2)),
        "Cartesian * &mut Cartesian" => |a| oc(c::<T>(a, 0) * &mut c::<T>(a, 2)),
        "ops::mul_cartesian" => |a| oc(mixed_num::complex::mul_cartesian(c::<T>(a, 0), c::<T>(a, 2))),
    );
    v
}
fn unsigned<T: El + MixedNum + MixedOps>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "add"; "ops::add" => |a| oc(mixed_num::complex::add(c::<T>(a, 0), c::<T>(a, 2))));
    v
}

/// floor(p / 2^frac) is what a product of two raw values may round to; the exact value is kept.
fn prod(ty: &Ty, x: i128, y: i128) -> Option<i128> {
    let p = x.checked_mul(y)?;
    // representable with a margin of one quantum
    let q = p >> ty.frac;
    if !ty.raw_in(q) || ty.frac > 0 && (q <= ty.rmin() || q >= ty.rmax()) { return None }
    Some(p)
}

fn judge(w: &mut W, o: &Op, a: &A) {
    let ty = &o.ty;
    if ty.bits == 128 && !ty.signed && a.iter().any(|x| *x < 0) { w.skip(); return }
    let bad = |w: &mut W, r: &str, e: String| w.violate(format!("{}:{}", o.name, ty.name), format!("({}, {}i) and ({}, {}i): {} gave {}, expected {}", ty.show(a[0]), ty.show(a[1]), ty.show(a[2]), ty.show(a[3]), o.name, r, e));
    if o.tag != "mul" {
        let (e, ok): ([i128; 2], bool) = if ty.is_float() {
            let f = |x: i128, y: i128| -> i128 {
                if ty.kind == Kind::F32 { let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (if o.tag == "add" { x + y } else { x - y }).to_bits() as i128 }
                else { let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64)); (if o.tag == "add" { x + y } else { x - y }).to_bits() as i128 } };
            ([f(a[0], a[2]), f(a[1], a[3])], true)
        } else {
            let f = |x: i128, y: i128| if o.tag == "add" { x.checked_add(y) } else { x.checked_sub(y) };
            match (f(a[0], a[2]), f(a[1], a[3])) { (Some(p), Some(q)) => ([p, q], ty.raw_in(p) && ty.raw_in(q)), _ => ([0, 0], false) }
        };
        if !ok { w.skip(); return }
        match w.call(o.name, ty.name, &a[..], || (o.f)(a)) {
            Out::Panic(m) => bad(w, &format!("panic ({})", m), show(ty, &e)),
            Out::Ok(r) => if !same(ty, r[0], e[0], false) || !same(ty, r[1], e[1], false) { bad(w, &show(ty, &r[..2]), show(ty, &e)) },
        }
    } else if ty.is_float() {
        let v: Vec<f64> = a.iter().map(|x| ty.val(*x)).collect();
        let (ac, bd, ad, bc) = (v[0] * v[2], v[1] * v[3], v[0] * v[3], v[1] * v[2]);
        let m = [ac, bd, ad, bc].iter().fold(0f64, |m, x| m.max(x.abs()));
        if !(m < ty.max() / 2.1) || v.iter().any(|x| !x.is_finite()) { w.skip(); return }
        let e = [ac - bd, ad + bc];
        let tiny = if ty.kind == Kind::F32 { 4e-45 } else { 2e-323 };
        let t = [4.0 * ty.quantum(1.0) * (ac.abs() + bd.abs()) + tiny, 4.0 * ty.quantum(1.0) * (ad.abs() + bc.abs()) + tiny];
        match w.call(o.name, ty.name, &a[..], || (o.f)(a)) {
            Out::Panic(m) => bad(w, &format!("panic ({})", m), format!("{:e}, {:e}", e[0], e[1])),
            Out::Ok(r) => for i in 0..2 {
                let err = (ty.val(r[i]) - e[i]).abs();
                if !(err <= t[i]) { bad(w, &show(ty, &r[..2]), format!("{:e}, {:e}", e[0], e[1])) }
                else { w.max("float product error / tolerance", err / t[i], || format!("{} {}", o.name, show(ty, a))) }
            },
        }
    } else {
        let (Some(ac), Some(bd), Some(ad), Some(bc)) = (prod(ty, a[0], a[2]), prod(ty, a[1], a[3]), prod(ty, a[0], a[3]), prod(ty, a[1], a[2])) else { w.skip(); return };
        let (Some(re), Some(im)) = (ac.checked_sub(bd), ad.checked_add(bc)) else { w.skip(); return };
        let margin = if ty.frac > 0 { 2 } else { 0 };
        for e in [re, im] { if (e >> ty.frac) - margin < ty.rmin() || (e >> ty.frac) + margin > ty.rmax() { w.skip(); return } }
        match w.call(o.name, ty.name, &a[..], || (o.f)(a)) {
            Out::Panic(m) => bad(w, &format!("panic ({})", m), format!("{:e}, {:e}", re as f64 * ty.ulp() * ty.ulp(), im as f64 * ty.ulp() * ty.ulp())),
            Out::Ok(r) => for (i, e) in [re, im].into_iter().enumerate() {
                // |r * 2^frac - e| <= 2 quanta (0 for integers)
                let tol = if ty.frac == 0 { 0 } else { 2i128 << ty.frac };
                let d = (r[i] << ty.frac).checked_sub(e).map(|d| d.abs()).unwrap_or(i128::MAX);
                if d > tol { bad(w, &show(ty, &r[..2]), format!("{:e}, {:e} within 2 quanta", re as f64 * ty.ulp() * ty.ulp(), im as f64 * ty.ulp() * ty.ulp())) }
                else if tol > 0 { w.max("fixed product error (quanta)", d as f64 / (1i128 << ty.frac) as f64, || format!("{} {}", o.name, show(ty, a))) }
            },
        }
    }
    w.judged(o.name, ty.name, &a[..], a.iter().any(|x| *x != 0), false);
}

fn main() {
    mon::run("C01", "one call of one entry point (operand form x element type) on one pair of complex operands whose products, sums and result are representable; non-trivial: an operand differs from zero", |ctx| {
        let mut tabs: Vec<Vec<Op>> = vec![];
        tabs.extend(signed_ints!(signed)); tabs.extend(floats!(signed)); tabs.extend(signed_fixed!(signed));
        tabs.extend(unsigned_ints!(unsigned)); tabs.extend(unsigned_fixed!(unsigned));
        let n = ctx.n(20_000, 300_000);
        tabs.into_iter().map(|t| -> Job {
            Box::new(move |w: &mut W| {
                let ty = t[0].ty;
                let n = if ty.is_float() || ty.kind == Kind::Int { n * 6 } else { n };
                for _ in 0..n {
                    let mut r = w.rng.clone(); let a = gen::tuple(&ty, &mut r, 4); w.rng = r;
                    for o in &t { judge(w, o, &a); }
                    if w.wants_sample() && a[0] != 0 && a[3] != 0 { if let Out::Ok(r) = w.call(t[0].name, ty.name, &a, || (t[0].f)(&a)) { w.sample(format!("{}: ({}) -> ({})", t[0].name, show(&ty, &a), show(&ty, &r[..2]))) } }
                }
                for o in &t { w.op_count(o.name, n) }
            })
        }).collect()
    })
}
