//! C12: square roots.
use mixed_num::*;
use mixed_num_mon::*;

trait Sq: El + MixedReal + MixedZero + MixedAbs + MixedOps + MixedPowi + MixedSqrt {}
impl<T: El + MixedReal + MixedZero + MixedAbs + MixedOps + MixedPowi + MixedSqrt> Sq for T {}

fn ops<T: Sq>() -> Vec<Op> {
    use mixed_num::trigonometry::sqrt::niirf;
    let mut v = vec![];
    tab!(v, T, "sqrt"; "mixed_sqrt" => |a| ox(x::<T>(a, 0).mixed_sqrt()));
    tab!(v, T, "2"; "mixed_niirf" => |a| ox(x::<T>(a, 0).mixed_niirf()));
    tab!(v, T, "1"; "niirf(1)" => |a| ox(niirf(x::<T>(a, 0), 1)));
    tab!(v, T, "2"; "niirf(2)" => |a| ox(niirf(x::<T>(a, 0), 2)));
    tab!(v, T, "3"; "niirf(3)" => |a| ox(niirf(x::<T>(a, 0), 3)));
    tab!(v, T, "4"; "niirf(4)" => |a| ox(niirf(x::<T>(a, 0), 4)));
    tab!(v, T, "6"; "niirf(6)" => |a| ox(niirf(x::<T>(a, 0), 6)));
    tab!(v, T, "10"; "niirf(10)" => |a| ox(niirf(x::<T>(a, 0), 10)));
    tab!(v, T, "n"; "niirf(n)" => |a| ox(niirf(x::<T>(a, 0), iterations(a) as usize)));
    v
}
/// The iteration count of the configurable root, from the second argument.
fn iterations(a: &A) -> u32 { 1 + (a[1] & 63) as u32 }

fn judge(w: &mut W, o: &Op, a: &A, en: bool) {
    let ty = &o.ty;
    let v = ty.val(a[0]);
    if ty.is_float() && o.tag == "sqrt" {
        // correctly rounded, special values included
        let e = if ty.kind == Kind::F32 { f32::from_bits(a[0] as u32).sqrt().to_bits() as i128 } else { v.sqrt().to_bits() as i128 };
        match w.call(o.name, ty.name, &a[..1], || (o.f)(a)) {
            Out::Ok(r) if same(ty, r[0], e, false) => {}
            r => w.violate(format!("{}:{}", o.name, ty.name), format!("{}({}) gave {:?}, expected {}", o.name, ty.show(a[0]), r, ty.show(e))),
        }
        w.judged(o.name, ty.name, &a[..1], a[0] != 0, en);
        return
    }
    let (n, k) = match o.tag { "n" => (iterations(a), 2), "sqrt" => (2, 1), t => (t.parse().unwrap_or(2), 1) };
    // documented: negative arguments are forced positive first
    if v.is_nan() { w.skip(); return }
    if v < 0.0 { w.note("negative arguments", 1) }
    let v = v.abs();
    if v == f64::INFINITY {
        match w.call(o.name, ty.name, &a[..k], || (o.f)(a)) {
            Out::Ok(r) if ty.val(r[0]) == f64::INFINITY => {}
            r => w.violate(format!("{}:{}", o.name, ty.name), format!("{}(inf) gave {:?}", o.name, r)),
        }
        return
    }
    let s = v.sqrt();
    // rounding the root up must not leave the type
    let u = ty.quantum(1.0);
    // relative to the power of two above the root, which is the scale the argument is normalised by
    let t = if v == 0.0 { 0.0 } else { tol::niirf_rel(n) * tol::pow2_above(s) + 2.0 * u * (if ty.is_float() { 2.0 * s } else { 1.0 + 2.0 * s }) };
    // the square root of subnormal numbers loses bits in the scaling
    if ty.is_float() && v != 0.0 && v < if ty.kind == Kind::F32 { 1e-37 } else { 1e-307 } { w.skip(); return }
    let wide = ty.is_float() || ty.frac >= 10;
    let l = match n { 1 => if wide {"1 w"} else {"1"}, 2 => if wide {"2 w"} else {"2"}, 3 => if wide {"3 w"} else {"3"}, 4 => if wide {"4 w"} else {"4"}, 5 => if wide {"5 w"} else {"5"}, 6 => if wide {"6 w"} else {"6"}, _ => if wide {"7+ w"} else {"7+"} };
    verdict(w, o, &a[..k], &[(s, t)], l, en);
}

fn gen(o: &Op, r: &mut Rng) -> A {
    let ty = &o.ty;
    // powers of two and of four, and the borders of the table segments k/16 * 4^n, are landmarks
    let a = match r.below(4) {
        0 => { let k = r.range(4, 16) as f64 / 16.0 * 4f64.powi(r.range(-(ty.frac.min(60) as i64) / 2 - if ty.is_float() { 40 } else { 0 }, 31) as i32); gen::clampty(ty, gen::step(ty, ty.enc(k.min(ty.max())), r.range(-2, 2))) }
        1 => gen::any(ty, r),
        _ => gen::unary(ty, r),
    };
    [if !ty.is_float() && a < 0 && r.below(8) != 0 { a.checked_neg().unwrap_or(0).min(ty.rmax()) } else { a }, if r.chance(2) { r.range(0, 9) } else if r.chance(4) { gen::int_literal(r, 64) } else { r.range(0, 63) } as i128, 0, 0]
}

fn main() {
    mon::run("C12", "one square root of one argument in one type by one entry point and iteration count; every raw pattern of the 8 and 16 bit formats; non-trivial: argument differs from zero", |ctx| {
        let mut tabs = floats!(ops);
        tabs.extend(signed_fixed!(ops)); tabs.extend(unsigned_fixed!(ops));
        drive(tabs, ctx.n(20_000, 2_000_000), |o| if o.tag == "n" { 2 } else { 1 }, gen, judge)
    })
}
