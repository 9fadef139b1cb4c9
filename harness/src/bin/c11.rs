//! C11: integer powers.
use mixed_num::*;
use mixed_num_mon::*;

trait Pw: El + MixedNum + MixedOps + MixedPowi {}
impl<T: El + MixedNum + MixedOps + MixedPowi> Pw for T {}

// the last raw argument of the table is the exponent
fn real<T: Pw>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "signed"; "mixed_powi" => |a| ox(x::<T>(a, 0).mixed_powi(a[1] as i32)));
    tab!(v, T, "unsigned"; "trigonometry::powi" => |a| ox(mixed_num::trigonometry::powi(x::<T>(a, 0), a[1] as usize)));
    v
}
fn cplx<T: Pw + fixed::traits::FixedSigned + MixedNumSigned + MixedAtan + MixedSin + MixedSqrt>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "complex"; "complex::powi" => |a| oc(mixed_num::complex::powi(c::<T>(a, 0), a[2] as usize)));
    v
}

/// Worst error of b^n when every product is rounded by u, b is off by be, and the products are taken by
/// repeated squaring from either end (what the rounding of a long chain of products gives is close to it).
fn squaring(u: f64, b: f64, be: f64, n: u64) -> f64 {
    if n < 4 { return 0.0 }
    let mul = |p: (f64, f64), q: (f64, f64)| (p.0 * q.0, p.0 * q.1 + p.1 * q.0 + p.1 * q.1 + u);
    let (mut hi, mut lo, mut s) = ((b, be), None, (b, be));
    for k in (0..63 - n.leading_zeros()).rev() { hi = mul(hi, hi); if n >> k & 1 == 1 { hi = mul(hi, (b, be)) } }
    let mut m = n;
    loop {
        if m & 1 == 1 { lo = Some(match lo { None => s, Some(l) => mul(l, s) }) }
        m >>= 1;
        if m == 0 { break }
        s = mul(s, s);
    }
    hi.1.max(lo.unwrap().1)
}

/// v^n in twice the precision of a double, rounded once.
fn exact_power(v: f64, n: i64) -> f64 {
    let mul = |a: (f64, f64), b: (f64, f64)| { let p = a.0 * b.0; let e = a.0.mul_add(b.0, -p) + (a.0 * b.1 + a.1 * b.0); let s = p + e; (s, e - (s - p)) };
    let m = n.unsigned_abs();
    if m == 0 { return 1.0 }
    let mut p = (v, 0.0);
    for k in (0..63 - m.leading_zeros()).rev() { p = mul(p, p); if m >> k & 1 == 1 { p = mul(p, (v, 0.0)) } }
    if n > 0 { return p.0 + p.1 }
    let q = 1.0 / p.0;
    q + q * ((-q).mul_add(p.0, 1.0) - q * p.1)
}

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let fail = |w: &mut W, r: &Out<A>, e: String| { let (k, n) = if o.tag == "complex" { (2, a[2]) } else { (1, a[1]) };
        w.violate(format!("{}:{}", o.name, ty.name), format!("({}) to the power {} by {} gave {:?}, expected {}", show(ty, &a[..k]), n, o.name, r, e)) };
    if o.tag == "complex" {
        let (re, im, n) = (ty.val(a[0]), ty.val(a[1]), a[2]);
        if a[0] == ty.rmin() || a[1] == ty.rmin() || !tol::mag_fits(ty, re, im) { w.skip(); return }
        let s = re.hypot(im);
        let mt = tol::mag(ty, s);
        let arg = im.atan2(re);
        let at = tol::atan(ty);
        let u = ty.ulp();
        let nf = n as f64;
        if nf >= ty.max() || (arg.abs() + at) * nf > ty.max() - u || s + mt > ty.max() { w.skip(); return }
        let top = s + mt;
        let pe = if n == 0 { 0.0 } else { nf * top.powi(n as i32 - 1) * mt + 1.02 * u * nf * top.max(1.0).powi(n as i32 - 1) };
        let pe = pe.max(1.02 * squaring(u, s, mt, n as u64));
        let m = s.powi(n as i32);
        if !(m + pe < ty.max() - 2.0 * u) || !pe.is_finite() || (re == 0.0 && im == 0.0 && nf * 2.0 > ty.max()) { w.skip(); return }
        let t = (m + pe) * (if s > 0.0 { nf * at } else { 0.0 } + tol::sincos(ty, nf * arg)) + pe + 1.02 * u;
        let th = nf * arg;
        // -1 < sin, cos rounded slightly above one must still fit
        if (m + pe) * (1.0 + tol::sincos(ty, nf * arg)) + u > ty.max() { w.skip(); return }
        let b = [a[0], a[1], a[2], 0];
        let r = w.call(o.name, ty.name, &a[..3], || (o.f)(&b));
        match &r {
            Out::Ok(g) if (ty.val(g[0]) - m * th.cos()).abs() <= t && (ty.val(g[1]) - m * th.sin()).abs() <= t => {
                w.max("complex", (ty.val(g[0]) - m * th.cos()).abs().max((ty.val(g[1]) - m * th.sin()).abs()) / t, || format!("{} ({})^{}", ty.name, show(ty, &a[..2]), n));
                if t < 0.05 * m { w.note("complex powers with a tolerance below 5% of the value", 1) }
            }
            _ => fail(w, &r, format!("{:e}, {:e} within {:e}", m * th.cos(), m * th.sin(), t)),
        }
        w.judged(o.name, ty.name, &a[..3], n > 1, en);
        return
    }
    let n = a[1] as i64;
    let v = ty.val(a[0]);
    let nf = n.unsigned_abs() as f64;
    match ty.kind {
        Kind::Int => {
            let e = if ty.bits == 128 && !ty.signed {
                let b = a[0] as u128;
                if n >= 0 { (b).checked_pow(n as u32).map(|x| x as i128) } else if b == 0 { None } else { Some((b == 1) as i128) }
            } else if n >= 0 { a[0].checked_pow(n as u32).filter(|e| ty.raw_in(*e)) }
            else { match a[0] { 0 => None, 1 => Some(1), -1 => Some(if n % 2 == 0 { 1 } else { -1 }), _ => Some(0) } };
            let Some(e) = e else { w.skip(); return };
            let r = w.call(o.name, ty.name, &a[..2], || (o.f)(a));
            match &r { Out::Ok(g) if g[0] == e => {}, _ => fail(w, &r, format!("{}", e)) }
        }
        Kind::Fixed => {
            let u = ty.ulp();
            let (b, be) = if n >= 0 { (v, 0.0) } else { if v == 0.0 { w.skip(); return } (1.0 / v, u) };
            let top = b.abs() + be;
            let t = if n == 0 || (n == 1) { 0.0 } else { 1.02 * u * nf * top.max(1.0).powf(nf - 1.0) + if n < 0 { 1.02 * nf * be * top.powf(nf - 1.0) } else { 0.0 } };
            let e = b.powi(n.unsigned_abs() as i32);
            let t = if n < 0 { t.max(1.02 * u) } else { t }.max(1.02 * squaring(u, b.abs(), be, n.unsigned_abs())) + e.abs() * 1e-15 * nf;
            if !(e.abs() + t < ty.max() - u && top < ty.max() - u) || !t.is_finite() { w.skip(); return }
            let r = w.call(o.name, ty.name, &a[..2], || (o.f)(a));
            match &r { Out::Ok(g) if (ty.val(g[0]) - e).abs() <= t => { if t > 0.0 { w.max(if n < 0 { "fixed negative" } else { "fixed" }, (ty.val(g[0]) - e).abs() / t, || format!("{} ({})^{}", ty.name, ty.show(a[0]), n)) } if t < 0.05 * e.abs() { w.note("fixed powers with a tolerance below 5% of the value", 1) } }, _ => fail(w, &r, format!("{:e} within {:e}", e, t)) }
        }
        _ => {
            let lim = if ty.kind == Kind::F32 { 120.0 } else { 1000.0 };
            let l2 = v.abs().log2();
            let odd = n % 2 != 0;
            let s = if odd && v.is_sign_negative() { -1.0 } else { 1.0 };
            // far outside the range (or at its ends) the power is known exactly
            let (e, t) = if n == 0 { (1.0, 0.0) } else if v.is_nan() { (f64::NAN, 0.0) }
                else if v == 0.0 || v.is_infinite() { (if (v == 0.0) == (n > 0) { 0.0 } else { s * f64::INFINITY }, 0.0) }
                else if v.abs() == 1.0 { (s, 0.0) }
                else if n > 0 && l2 * nf > lim + 40.0 || n < 0 && -l2 * nf > lim + 40.0 { (s * f64::INFINITY, 0.0) }
                else if n > 0 && l2 * nf < -lim - 90.0 || n < 0 && -l2 * nf < -lim - 90.0 {
                    // repeated multiplication by b comes to rest where rounding restores what is lost
                    let b = if n > 0 { v.abs() } else { 1.0 / v.abs() };
                    (0.0, if ty.kind == Kind::F32 { 1.5e-45 } else { 5e-324 } * (0.6 / (1.0 - b) + 2.0)) }
                else if l2.abs() * (nf + 1.0) > lim || nf > 1e5 { w.skip(); return }
                else { let e = exact_power(v, n); (e, e.abs() * (nf + 2.0) * ty.quantum(1.0)) };
            if !e.is_finite() || t == 0.0 || e == 0.0 {
                let r = w.call(o.name, ty.name, &a[..2], || (o.f)(a));
                match &r { Out::Ok(g) if { let g = ty.val(g[0]); g == e || g.is_nan() && e.is_nan() || (g - e).abs() <= t } => w.note("float powers with an exact expectation", 1), _ => fail(w, &r, format!("{:e}", e)) }
                w.judged(o.name, ty.name, &a[..2], n.abs() > 1 && v != 0.0, en);
                return
            }
            let r = w.call(o.name, ty.name, &a[..2], || (o.f)(a));
            match &r { Out::Ok(g) if (ty.val(g[0]) - e).abs() <= t => { if t > 0.0 { w.max("float", (ty.val(g[0]) - e).abs() / t, || format!("{} ({})^{}", ty.name, ty.show(a[0]), n)) } }, _ => fail(w, &r, format!("{:e} within {:e}", e, t)) }
        }
    }
    w.judged(o.name, ty.name, &a[..2], n.abs() > 1 && v != 0.0, en);
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    if o.tag == "complex" {
        let mut a = gen::tuple(ty, r, 2);
        let n = if r.chance(3) { r.range(0, 4) } else if r.chance(10) { gen::int_literal(r, 300).max(0) } else { r.range(0, 16) };
        if r.chance(3) { let b = r.uni(0.0, ty.max().min(1e12).powf(1.0 / (n.max(2) as f64))); a = [gen::within(ty, r, b), gen::within(ty, r, b), 0, 0] }
        if r.chance(8) { let s = r.uni(0.3, 1.3).min(ty.max()); let t = r.range(-8, 8) as f64 * std::f64::consts::PI / 8.0; a = [ty.enc(s * t.cos()), ty.enc(s * t.sin()), 0, 0] }
        return [a[0], a[1], n as i128, 0]
    }
    let n = match r.below(8) { 0 => r.range(0, 3), 1 => r.range(0, 40), 2 => r.range(0, 300), _ => r.range(0, 10) };
    let mut x = if r.chance(4) { gen::any(ty, r) } else {
        let lim = ty.max().min(1e30).powf(1.0 / (n.max(1) as f64));
        match r.below(3) { 0 => gen::within(ty, r, lim), 1 => gen::within(ty, r, 2.0), _ => gen::tuple(ty, r, 1)[0] }
    };
    let mut n = n;
    if o.tag == "signed" && r.chance(3) {
        n = -n;
        // bases whose reciprocal powers stay representable
        if r.chance(2) { x = ty.enc(r.uni(0.3, 3.0) * if ty.signed && r.chance(2) { -1.0 } else { 1.0 }) }
    }
    if n > 60 && ty.kind == Kind::Int && r.chance(2) { x = if ty.signed && r.chance(2) { -1 } else { 1 } }
    if ty.is_float() && r.chance(10) { x = gen::any_float(ty, r); if r.chance(4) { n = *r.pick(&[i32::MAX as i64, i32::MIN as i64, 1 << 16, 65_537, 256, -256, 255, 1 << 30]); if o.tag != "signed" { n = n.abs().min(70_000) } } }
    // exponents the code mentions
    if r.chance(12) { n = gen::int_literal(r, 70_000).abs(); if o.tag == "signed" && r.chance(3) { n = -n } if ty.kind == Kind::Fixed && n > 3000 { n = 3000 } if r.chance(2) { x = ty.enc(if r.chance(2) { 1.0 } else { r.uni(0.9, 1.1).min(ty.max()) }) } }
    // long powers of numbers around one
    if r.chance(40) {
        n = *r.pick(&[255, 256, 257, 511, 512, 1023, 1024, 4095, 65_535, 65_536, 65_537]) + r.range(0, 1);
        if n > 5000 && !r.chance(40) { n = r.range(200, 2000) }
        x = if r.chance(4) { 0 } else { ty.enc(if ty.signed && r.chance(2) { -1.0 } else { 1.0 }) };
        if r.chance(2) && ty.kind != Kind::Int { let k = r.range(-1, 1); x = gen::step(ty, x, k) }
        if ty.kind == Kind::Fixed && ty.frac == 0 && r.chance(2) { x = 1 }
        if o.tag == "signed" && r.chance(4) { n = -n }
    }
    [x, n as i128, 0, 0]
}

fn main() {
    mon::run("C11", "one integer power of one base in one type by one entry point, the result (and for negative exponents the reciprocal) being representable; non-trivial: exponent beyond one and nonzero base, for complex bases exponent beyond one", |ctx| {
        let mut tabs = signed_ints!(real);
        tabs.extend(unsigned_ints!(real)); tabs.extend(floats!(real)); tabs.extend(signed_fixed!(real)); tabs.extend(unsigned_fixed!(real));
        let n = ctx.n(40_000, 3_000_000);
        let mut jobs = drive(tabs, n, |_| 3, gen, judge);
        jobs.extend(drive(signed_fixed!(cplx), n, |_| 3, gen, judge));
        // the longest exponents there are: a power of one or minus one, all the same
        if ctx.profile == "checked" || ctx.profile == "release" {
            let mut longest = vec![real::<i32>(), real::<fixed::FixedI32<fixed::types::extra::U16>>(), real::<fixed::FixedU32<fixed::types::extra::U16>>()];
            if ctx.thorough { longest.extend([real::<i8>(), real::<u64>(), real::<i128>(), real::<fixed::FixedI64<fixed::types::extra::U32>>(), real::<fixed::FixedU8<fixed::types::extra::U4>>()]) }
            for t in longest { for (b, n) in [(1i128, i32::MIN), (-1, i32::MAX), (-1, i32::MIN)] {
                let ty = t[0].ty;
                if b < 0 && !ty.signed || n == i32::MIN && b < 0 && !ctx.thorough { continue }
                let o = t[0].clone();
                // started first, as they take seconds
                jobs.insert(0, Box::new(move |w: &mut W| { w.patience(12); judge(w, &o, &[b << ty.frac, n as i128, 0, 0], false); w.patience(0); w.note("longest exponents", 1) }));
            } }
        }
        jobs
    })
}
