//! C17: decibel conversions.
use mixed_num::*;
use mixed_num_mon::*;

fn ops<T: El + DbMag + DbPow>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "to 20"; "mixed_mag2db" => |a| ox(x::<T>(a, 0).mixed_mag2db()));
    tab!(v, T, "to 10"; "mixed_pow2db" => |a| ox(x::<T>(a, 0).mixed_pow2db()));
    tab!(v, T, "from 20"; "mixed_db2mag" => |a| ox(x::<T>(a, 0).mixed_db2mag()));
    tab!(v, T, "from 10"; "mixed_db2pow" => |a| ox(x::<T>(a, 0).mixed_db2pow()));
    tab!(v, T, "rt 20"; "db2mag of mag2db" => |a| ox(x::<T>(a, 0).mixed_mag2db().mixed_db2mag()));
    tab!(v, T, "rt 10"; "db2pow of pow2db" => |a| ox(x::<T>(a, 0).mixed_pow2db().mixed_db2pow()));
    tab!(v, T, "rtd 20"; "mag2db of db2mag" => |a| ox(x::<T>(a, 0).mixed_db2mag().mixed_mag2db()));
    tab!(v, T, "rtd 10"; "pow2db of db2pow" => |a| ox(x::<T>(a, 0).mixed_db2pow().mixed_pow2db()));
    tab!(v, T, "sq"; "mag2db(m) and pow2db(m * m)" => |a| [x::<T>(a, 0).mixed_mag2db().to(), x::<T>(a, 1).mixed_pow2db().to(), 0, 0]);
    v
}

extern "C" { fn exp10(x: f64) -> f64; }
const LN10: f64 = std::f64::consts::LN_10;

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let eps = if ty.kind == Kind::F32 { f32::EPSILON as f64 } else { f64::EPSILON };
    let tiny = if ty.kind == Kind::F32 { 1.5e-45 } else { 5e-324 };
    let minn = if ty.kind == Kind::F32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    let xv = ty.val(a[0]);
    let k = if o.tag.ends_with("20") { 20.0 } else { 10.0 };
    let mut a = *a;
    let label = if ty.kind == Kind::F32 { "error/tolerance f32" } else { "error/tolerance f64" };
    let (e, t) = match o.tag {
        "to 20" | "to 10" => { let e = k * xv.log10(); (e, 6.0 * eps * e.abs()) }
        "from 20" | "from 10" => {
            let e = unsafe { exp10(xv / k) };
            // rounding of the exponent moves the result by ln10 * |x/k| * eps/2 relative
            (e, e * eps * (6.0 + LN10 * (xv / k).abs()) + 2.0 * tiny)
        }
        "rt 20" | "rt 10" => {
            if xv.is_finite() && xv > 0.0 && xv < minn { w.skip(); return } // subnormals lose bits
            let d = xv.log10().abs();
            (if xv < 0.0 { f64::NAN } else { xv }, xv.abs() * eps * (6.0 + LN10 * d * 8.0))
        }
        "rtd 20" | "rtd 10" => {
            let m = unsafe { exp10(xv / k) };
            if xv.is_finite() && !(m > minn * 1.01 && m < ty.max() * 0.99) { w.skip(); return }
            // near m = 1 the logarithm sees only the absolute rounding of m
            (xv, eps * (8.0 * xv.abs() + k * 6.0))
        }
        _ => {
            // mag2db(m) and pow2db(m^2) are the same level; m has at most half the bits, so m*m is exact
            let m = if ty.kind == Kind::F32 { f32::from_bits((xv as f32).to_bits() & 0xffff_f000) as f64 } else { f64::from_bits(xv.to_bits() & !0x7ff_ffff) };
            if !(m.abs() > minn.sqrt() * 2.0 && m.abs() < ty.max().sqrt() / 2.0) { w.skip(); return }
            let m = m.abs();
            a = [ty.enc(m), ty.enc(m * m), 0, 0];
            let e = 20.0 * m.log10();
            return verdict(w, o, &a[..2], &[(e, 6.0 * eps * e.abs()), (e, 6.0 * eps * e.abs())], label, en)
        }
    };
    let t = if t.is_nan() { 0.0 } else { t };
    if e.is_nan() || e.is_infinite() || (e > ty.max() * (1.0 - 1e-5)) {
        match w.call(o.name, ty.name, &a[..1], || (o.f)(&a)) {
            Out::Ok(r) => {
                let g = ty.val(r[0]);
                let ok = if e.is_nan() { g.is_nan() } else { g == e || (g == f64::INFINITY && e > 0.0) || (g - e).abs() <= t || (e.is_infinite() && e > 0.0 && g > ty.max() * (1.0 - 1e-5)) };
                if !ok { w.violate(format!("{}:{}:special", o.name, ty.name), format!("{} ({}) gave {:e}, expected {:e}", o.name, show(ty, &a[..1]), g, e)) }
                w.note("special values", 1);
            }
            Out::Panic(m) => w.violate(format!("{}:{}", o.name, ty.name), format!("{} ({}) panicked: {}", o.name, show(ty, &a[..1]), m)),
        }
        w.judged(o.name, ty.name, &a[..1], xv != 0.0, en);
        return
    }
    verdict(w, o, &a[..1], &[(e, t)], label, en);
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    let f32_ = ty.kind == Kind::F32;
    let v = if o.tag.starts_with("from") || o.tag.starts_with("rtd") {
        let lim = (if f32_ { 38.0 } else { 308.0 }) * if o.tag.ends_with("20") { 20.0 } else { 10.0 };
        match r.below(6) {
            0 => r.range(-60, 60) as f64 * 10.0,
            1 => r.uni(-lim * 1.2, lim * 1.2),
            2 => return [gen::any_float(ty, r), 0, 0, 0],
            3 => r.uni(-3.0, 3.0),
            _ => r.uni(-120.0, 120.0),
        }
    } else {
        match r.below(6) {
            0 => 10f64.powi(r.range(-30, 30) as i32),
            1 => if f32_ { r.logu(1e-44, 3e38) } else { r.logu(1e-320, 1e308) },
            2 => return [gen::any_float(ty, r), 0, 0, 0],
            3 => return [gen::step(ty, ty.enc(1.0), r.range(-2000, 2000)), 0, 0, 0],
            4 => r.uni(0.0, 1000.0),
            _ => r.logu(1e-6, 1e6),
        }
    };
    [ty.enc(v), 0, 0, 0]
}

fn main() {
    mon::run("C17", "one decibel conversion or round trip of one f32 or f64 number, zeros, negative numbers, subnormals, infinities and NaN included; thorough: every f32 argument of the conversions; non-trivial: not zero", |ctx| {
        let mut jobs = drive(floats!(ops), ctx.n(200_000, 8_000_000), |_| 1, gen, judge);
        if ctx.thorough {
            for o in ops::<f32>() {
                for part in 0..64u64 {
                    jobs.push(Box::new(move |w: &mut W| {
                        let s = part << 26;
                        for b in s..s + (1 << 26) { judge(w, &o, &[b as i128, 0, 0, 0], true) }
                        w.op_count("every f32", 1 << 26);
                    }));
                }
            }
        }
        jobs
    })
}
