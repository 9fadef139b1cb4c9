//! Tables of (nearly) the whole public interface, for the monitors that judge every entry point the
//! same way (termination, determinism, user defined types). Arguments: up to four raw numbers; tags
//! ending in "^" take a small exponent or iteration count in the last raw argument.
use crate::el::*;
use crate::ops::*;
use crate::tab;
use crate::tr::*;
use mixed_num::trigonometry as tg;
use mixed_num::*;

pub trait Cx: Signed + MixedReal + MixedAbs + MixedPowi + MixedOne {}
impl<T: Signed + MixedReal + MixedAbs + MixedPowi + MixedOne> Cx for T {}

fn b(x: bool) -> A { [x as i128, 0, 0, 0] }
fn k(a: &A) -> i32 { a[3] as i32 }

/// Conversions every real type has. Scalars of another type travel in the third raw argument.
fn f64a(v: f64) -> A { [if v.is_nan() { 0x7ff8 << 48 } else { v.to_bits() as i128 }, 0, 0, 0] }
fn f32a(v: f32) -> A { [if v.is_nan() { 0x7fc0_0000 } else { v.to_bits() as i128 }, 0, 0, 0] }
pub fn convs<T: El + MixedReal>(v: &mut Vec<Op>) {
    tab!(v, T, "3";
        "mixed_from_num scalar f64" => |a| ox(<T as MixedNumConversion<f64>>::mixed_from_num(f64::from_bits(a[2] as u64))),
        "mixed_from_num scalar f32" => |a| ox(<T as MixedNumConversion<f32>>::mixed_from_num(f64::from_bits(a[2] as u64) as f32)),
        "mixed_from_num scalar i32" => |a| ox(<T as MixedNumConversion<i32>>::mixed_from_num(a[2] as i32)),
        "mixed_from_num scalar i64" => |a| ox(<T as MixedNumConversion<i64>>::mixed_from_num(a[2] as i64)),
        "mixed_from_num scalar i as u32" => |a| ox(<T as MixedNumConversion<u32>>::mixed_from_num(a[2] as u32)),
        "mixed_from_num scalar i as u64" => |a| ox(<T as MixedNumConversion<u64>>::mixed_from_num(a[2] as u64)),
    );
    tab!(v, T, "1";
        "mixed_to_num f64" => |a| f64a(x::<T>(a, 0).mixed_to_num()),
        "mixed_to_num f32" => |a| f32a(x::<T>(a, 0).mixed_to_num()),
        "mixed_to_num i32" => |a| { let n: i32 = x::<T>(a, 0).mixed_to_num(); [n as i128, 0, 0, 0] },
        "mixed_to_num i64" => |a| { let n: i64 = x::<T>(a, 0).mixed_to_num(); [n as i128, 0, 0, 0] },
        "mixed_to_num u32" => |a| { let n: u32 = x::<T>(a, 0).mixed_to_num(); [n as i128, 0, 0, 0] },
        "mixed_to_num u64" => |a| { let n: u64 = x::<T>(a, 0).mixed_to_num(); [n as i128, 0, 0, 0] },
    );
}

/// Complex numbers over any signed type.
pub fn cplx<T: Cx>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "4";
        "Cartesian + Cartesian" => |a| oc(c::<T>(a, 0) + c::<T>(a, 2)),
        "Cartesian - &Cartesian" => |a| oc(c::<T>(a, 0) - &c::<T>(a, 2)),
        "Cartesian * &mut Cartesian" => |a| oc(c::<T>(a, 0) * &mut c::<T>(a, 2)),
        "Cartesian * Cartesian" => |a| oc(c::<T>(a, 0) * c::<T>(a, 2)),
        "Cartesian / Cartesian" => |a| oc(c::<T>(a, 0) / c::<T>(a, 2)),
        "Cartesian + num::Complex" => |a| oc(c::<T>(a, 0) + nc::<T>(a, 2)),
        "Cartesian - num::Complex" => |a| oc(c::<T>(a, 0) - nc::<T>(a, 2)),
        "Cartesian / &num::Complex" => |a| oc(c::<T>(a, 0) / &nc::<T>(a, 2)),
        "Cartesian += Cartesian" => |a| { let mut z = c::<T>(a, 0); z += c::<T>(a, 2); oc(z) },
        "Cartesian -= Cartesian" => |a| { let mut z = c::<T>(a, 0); z -= c::<T>(a, 2); oc(z) },
        "Cartesian /= Cartesian" => |a| { let mut z = c::<T>(a, 0); z /= c::<T>(a, 2); oc(z) },
        "complex::add" => |a| oc(mixed_num::complex::add(c::<T>(a, 0), c::<T>(a, 2))),
        "complex::sub" => |a| oc(mixed_num::complex::sub(c::<T>(a, 0), c::<T>(a, 2))),
        "complex::mul_cartesian" => |a| oc(mixed_num::complex::mul_cartesian(c::<T>(a, 0), c::<T>(a, 2))),
        "complex::div_cartesian" => |a| oc(mixed_num::complex::div_cartesian(c::<T>(a, 0), c::<T>(a, 2))),
        "Polar * Polar" => |a| op(p::<T>(a, 0) * p::<T>(a, 2)),
        "complex::mul_polar" => |a| op(mixed_num::complex::mul_polar(p::<T>(a, 0), p::<T>(a, 2))),
        "Cartesian ==" => |a| b(c::<T>(a, 0) == c::<T>(a, 2)),
        "Cartesian partial_cmp" => |a| [c::<T>(a, 0).partial_cmp(&c::<T>(a, 2)).map_or(9, |o| o as i128), 0, 0, 0],
    );
    tab!(v, T, "3";
        "Cartesian + scalar f64" => |a| oc(c::<T>(a, 0) + f64::from_bits(a[2] as u64)),
        "Cartesian - scalar f64" => |a| oc(c::<T>(a, 0) - f64::from_bits(a[2] as u64)),
        "Cartesian * scalar f64" => |a| oc(c::<T>(a, 0) * f64::from_bits(a[2] as u64)),
        "Cartesian / scalar f64" => |a| oc(c::<T>(a, 0) / f64::from_bits(a[2] as u64)),
        "Cartesian * scalar i32" => |a| oc(c::<T>(a, 0) * (a[2] as i32)),
        "Cartesian / scalar i32" => |a| oc(c::<T>(a, 0) / (a[2] as i32)),
        "Cartesian += scalar i64" => |a| { let mut z = c::<T>(a, 0); z += a[2] as i64; oc(z) },
        "Cartesian -= scalar i64" => |a| { let mut z = c::<T>(a, 0); z -= a[2] as i64; oc(z) },
        "Cartesian /= scalar i64" => |a| { let mut z = c::<T>(a, 0); z /= a[2] as i64; oc(z) },
        "complex::div_scalar_cartesian" => |a| oc(mixed_num::complex::div_scalar_cartesian(c::<T>(a, 0), x::<T>(a, 2))),
        "Polar * scalar" => |a| op(p::<T>(a, 0) * x::<T>(a, 2)),
        "Polar / scalar" => |a| op(p::<T>(a, 0) / x::<T>(a, 2)),
    );
    tab!(v, T, "2";
        "Cartesian::conj" => |a| oc::<T>(c::<T>(a, 0).conj()),
        "Polar mag, arg" => |a| { let z = p::<T>(a, 0); [z.mag().to(), z.arg().to(), z.mixed_abs().mag.to(), z.ang().to()] },
        "Polar to_polar" => |a| op(p::<T>(a, 0).to_polar()),
        "Cartesian to_cartesian" => |a| oc(c::<T>(a, 0).to_cartesian()),
    );
    tab!(v, T, "1";
        "mixed_to_complex" => |a| oc(Cartesian::<T>::mixed_to_complex(x::<T>(a, 0))),
        "mixed_sign" => |a| ox(x::<T>(a, 0).mixed_sign()),
        "trigonometry::sign" => |a| ox(tg::sign(x::<T>(a, 0))),
        "mixed_abs" => |a| ox(x::<T>(a, 0).mixed_abs()),
        "mixed_is_positive" => |a| b(x::<T>(a, 0).mixed_is_positive()),
        "mixed_is_negative" => |a| b(x::<T>(a, 0).mixed_is_negative()),
        "mixed_max_value, mixed_min_value, mixed_one, mixed_zero" => |_| [T::mixed_max_value().to(), T::mixed_min_value().to(), T::mixed_one().to(), T::mixed_zero().to()],
    );
    convs::<T>(&mut v);
    tab!(v, T, "4";
        "Cartesian - Cartesian" => |a| oc(c::<T>(a, 0) - c::<T>(a, 2)),
        "Cartesian * &Cartesian" => |a| oc(c::<T>(a, 0) * &c::<T>(a, 2)),
        "Cartesian + &mut num::Complex" => |a| oc(c::<T>(a, 0) + &mut nc::<T>(a, 2)),
        "Cartesian += num::Complex" => |a| { let mut z = c::<T>(a, 0); z += nc::<T>(a, 2); oc(z) },
        "Cartesian -= &num::Complex" => |a| { let mut z = c::<T>(a, 0); z -= &nc::<T>(a, 2); oc(z) },
        "Cartesian /= &mut num::Complex" => |a| { let mut z = c::<T>(a, 0); z /= &mut nc::<T>(a, 2); oc(z) },
        "Polar ==, partial_cmp" => |a| [(p::<T>(a, 0) == p::<T>(a, 2)) as i128, p::<T>(a, 0).partial_cmp(&p::<T>(a, 2)).map_or(9, |o| o as i128), 0, 0],
    );
    tab!(v, T, "3";
        "Cartesian * scalar f32" => |a| oc(c::<T>(a, 0) * f64::from_bits(a[2] as u64) as f32),
        "Cartesian /= scalar f64" => |a| { let mut z = c::<T>(a, 0); z /= f64::from_bits(a[2] as u64); oc(z) },
        "Cartesian += scalar f64" => |a| { let mut z = c::<T>(a, 0); z += f64::from_bits(a[2] as u64); oc(z) },
        "Cartesian -= scalar i as u32" => |a| { let mut z = c::<T>(a, 0); z -= a[2] as u32; oc(z) },
    );
    tab!(v, T, "2";
        "Cartesian mixed_to_num to Cartesian<f64>" => |a| { let z: Cartesian<f64> = c::<T>(a, 0).mixed_to_num(); let q = |v: f64| f64a(v)[0]; [q(z.re), q(z.im), 0, 0] },
        "Cartesian mixed_to_num to Cartesian<i32>" => |a| { let z: Cartesian<i32> = c::<T>(a, 0).mixed_to_num(); [z.re as i128, z.im as i128, 0, 0] },
        "Polar mixed_to_num" => |a| f64a(p::<T>(a, 0).mixed_to_num()),
    );
    tab!(v, T, "1";
        "Polar mixed_to_complex" => |a| op(Polar::<T>::mixed_to_complex(x::<T>(a, 0))),
        "Cartesian mixed_zero, mixed_one" => |_| { let (z, o) = (Cartesian::<T>::mixed_zero(), Cartesian::<T>::mixed_one()); [z.re.to(), z.im.to(), o.re.to(), o.im.to()] },
        "Polar mixed_zero, mixed_one" => |_| { let (z, o) = (Polar::<T>::mixed_zero(), Polar::<T>::mixed_one()); [z.mag.to(), z.ang.to(), o.mag.to(), o.ang.to()] },
    );
    tab!(v, T, "1^";
        "mixed_powi" => |a| ox(x::<T>(a, 0).mixed_powi(k(a))),
        "trigonometry::powi" => |a| ox(tg::powi(x::<T>(a, 0), k(a).unsigned_abs() as usize)),
    );
    v
}

/// What signed fixed point numbers and floats have on top of that.
pub fn full<T: Full>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "4";
        "Cartesian * Polar" => |a| oc(c::<T>(a, 0) * p::<T>(a, 2)),
        "Cartesian * &mut Polar" => |a| oc(c::<T>(a, 0) * &mut p::<T>(a, 2)),
        "Cartesian *= &Polar" => |a| { let mut z = c::<T>(a, 0); z *= &p::<T>(a, 2); oc(z) },
        "Polar * Cartesian" => |a| op(p::<T>(a, 0) * c::<T>(a, 2)),
    );
    tab!(v, T, "2";
        "Polar::conj" => |a| op::<T>(p::<T>(a, 0).conj()),
        "Cartesian::to_polar" => |a| op(c::<T>(a, 0).to_polar()),
        "complex::to_polar" => |a| op(mixed_num::complex::to_polar(c::<T>(a, 0))),
        "Polar::to_cartesian" => |a| oc(p::<T>(a, 0).to_cartesian()),
        "complex::to_cartesian" => |a| oc(mixed_num::complex::to_cartesian(p::<T>(a, 0))),
        "Cartesian::new_from_polar" => |a| oc(Cartesian::<T>::new_from_polar(x::<T>(a, 0), x::<T>(a, 1))),
        "Polar::new_from_polar" => |a| op(Polar::<T>::new_from_polar(x::<T>(a, 0), x::<T>(a, 1))),
        "Cartesian::new_from_cartesian" => |a| oc(Cartesian::<T>::new_from_cartesian(x::<T>(a, 0), x::<T>(a, 1))),
        "Cartesian abs, ang" => |a| [c::<T>(a, 0).abs().to(), c::<T>(a, 0).ang().to(), 0, 0],
        "Polar abs, ang" => |a| [p::<T>(a, 0).abs().to(), p::<T>(a, 0).ang().to(), 0, 0],
        "Polar::new_from_cartesian" => |a| op(Polar::<T>::new_from_cartesian(x::<T>(a, 0), x::<T>(a, 1))),
        "Cartesian::mag" => |a| ox(c::<T>(a, 0).mag()),
        "Cartesian::arg" => |a| ox(c::<T>(a, 0).arg()),
        "Cartesian mixed_abs" => |a| ox(MixedAbs::mixed_abs(&c::<T>(a, 0)).mag()),
        "complex::abs" => |a| ox(mixed_num::complex::abs(c::<T>(a, 0))),
        "Cartesian mixed_exp" => |a| oc(c::<T>(a, 0).mixed_exp()),
        "mixed_atan2" => |a| ox(x::<T>(a, 0).mixed_atan2(x::<T>(a, 1))),
        "mixed_atan2_poly" => |a| ox(x::<T>(a, 0).mixed_atan2_poly(x::<T>(a, 1))),
        "atan::atan2" => |a| ox(tg::atan::atan2(x::<T>(a, 0), x::<T>(a, 1))),
    );
    tab!(v, T, "1";
        "atan::atan" => |a| ox(tg::atan::atan(x::<T>(a, 0))),
        "mixed_atan" => |a| ox(x::<T>(a, 0).mixed_atan()),
        "mixed_sin" => |a| ox(x::<T>(a, 0).mixed_sin()),
        "mixed_cos" => |a| ox(x::<T>(a, 0).mixed_cos()),
        "mixed_sincos" => |a| ox2(x::<T>(a, 0).mixed_sincos()),
        "mixed_asin" => |a| ox(x::<T>(a, 0).mixed_asin()),
        "mixed_acos" => |a| ox(x::<T>(a, 0).mixed_acos()),
        "mixed_exp" => |a| ox(x::<T>(a, 0).mixed_exp()),
        "mixed_sqrt" => |a| ox(x::<T>(a, 0).mixed_sqrt()),
        "mixed_niirf" => |a| ox(x::<T>(a, 0).mixed_niirf()),
        "mixed_wrap_phase" => |a| ox(x::<T>(a, 0).mixed_wrap_phase()),
        "trigonometry::wrap_phase" => |a| ox(tg::wrap_phase(x::<T>(a, 0))),
        "trigonometry::sin" => |a| ox(tg::sin(x::<T>(a, 0))),
        "trigonometry::cos" => |a| ox(tg::cos(x::<T>(a, 0))),
    );
    tab!(v, T, "1^"; "sqrt::niirf" => |a| ox(tg::sqrt::niirf(x::<T>(a, 0), k(a).unsigned_abs() as usize)));
    v
}

pub fn fixed_powi<T: Full + fixed::traits::FixedSigned>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "2^"; "complex::powi" => |a| oc(mixed_num::complex::powi(c::<T>(a, 0), k(a).unsigned_abs() as usize)));
    v
}

/// Real to complex of the primitive types (floats and fixed point numbers).
pub fn real_cart<T: El + MixedNumConversion<Cartesian<f64>> + MixedNumConversion<Cartesian<i32>> + MixedNumConversion<Cartesian<f32>>>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "1";
        "real mixed_to_num to Cartesian<f64>" => |a| { let z: Cartesian<f64> = x::<T>(a, 0).mixed_to_num(); [f64a(z.re)[0], f64a(z.im)[0], 0, 0] },
        "real mixed_to_num to Cartesian<f32>" => |a| { let z: Cartesian<f32> = x::<T>(a, 0).mixed_to_num(); [f32a(z.re)[0], f32a(z.im)[0], 0, 0] },
        "real mixed_to_num to Cartesian<i32>" => |a| { let z: Cartesian<i32> = x::<T>(a, 0).mixed_to_num(); [z.re as i128, z.im as i128, 0, 0] },
    );
    tab!(v, T, "3";
        "real mixed_from_num(Cartesian of scalar f64)" => |a| ox(<T as MixedNumConversion<Cartesian<f64>>>::mixed_from_num(Cartesian::new(f64::from_bits(a[2] as u64), 0.0))),
        "real mixed_from_num(Cartesian of scalar i32)" => |a| ox(<T as MixedNumConversion<Cartesian<i32>>>::mixed_from_num(Cartesian::new(a[2] as i32, 1))),
    );
    v
}

/// Unsigned types: real functions and sums of complex numbers.
pub trait Un: El + MixedReal + MixedOps + MixedAbs + MixedPowi + MixedZero + MixedOne {}
impl<T: El + MixedReal + MixedOps + MixedAbs + MixedPowi + MixedZero + MixedOne> Un for T {}
pub fn unsig<T: Un>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "4"; "complex::add" => |a| oc(mixed_num::complex::add(c::<T>(a, 0), c::<T>(a, 2))));
    tab!(v, T, "3";
        "Cartesian + scalar f64" => |a| oc(c::<T>(a, 0) + f64::from_bits(a[2] as u64)),
        "Cartesian - scalar f64" => |a| oc(c::<T>(a, 0) - f64::from_bits(a[2] as u64)),
        "Cartesian * scalar f64" => |a| oc(c::<T>(a, 0) * f64::from_bits(a[2] as u64)),
        "Cartesian / scalar f64" => |a| oc(c::<T>(a, 0) / f64::from_bits(a[2] as u64)),
    );
    tab!(v, T, "1";
        "mixed_abs" => |a| ox(x::<T>(a, 0).mixed_abs()),
        "mixed_is_positive" => |a| b(x::<T>(a, 0).mixed_is_positive()),
        "mixed_is_negative" => |a| b(x::<T>(a, 0).mixed_is_negative()),
        "mixed_sign" => |a| ox(x::<T>(a, 0).mixed_sign()),
        "Polar mixed_to_complex" => |a| op(Polar::<T>::mixed_to_complex(x::<T>(a, 0))),
        "mixed_max_value, mixed_min_value, mixed_one, mixed_zero" => |_| [T::mixed_max_value().to(), T::mixed_min_value().to(), T::mixed_one().to(), T::mixed_zero().to()],
    );
    convs::<T>(&mut v);
    tab!(v, T, "1^";
        "mixed_powi" => |a| ox(x::<T>(a, 0).mixed_powi(k(a))),
        "trigonometry::powi" => |a| ox(tg::powi(x::<T>(a, 0), k(a).unsigned_abs() as usize)),
        "sqrt::niirf" => |a| ox(tg::sqrt::niirf(x::<T>(a, 0), k(a).unsigned_abs() as usize)),
    );
    v
}
pub fn root<T: El + MixedSqrt>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "1"; "mixed_sqrt" => |a| ox(x::<T>(a, 0).mixed_sqrt()), "mixed_niirf" => |a| ox(x::<T>(a, 0).mixed_niirf()));
    v
}

/// What only floats have.
pub trait Fl: El + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + MixedPow + Mixedlog + Mixedlog10 + Mixedlog2 + DbMag + DbPow {}
impl<T: El + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + MixedPow + Mixedlog + Mixedlog10 + Mixedlog2 + DbMag + DbPow> Fl for T {}
pub fn float<T: Fl>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "2"; "mixed_pow" => |a| ox(x::<T>(a, 0).mixed_pow(x::<T>(a, 1))));
    tab!(v, T, "1";
        "mixed_tan" => |a| ox(x::<T>(a, 0).mixed_tan()), "mixed_tanh" => |a| ox(x::<T>(a, 0).mixed_tanh()), "mixed_atanh" => |a| ox(x::<T>(a, 0).mixed_atanh()),
        "mixed_sinh" => |a| ox(x::<T>(a, 0).mixed_sinh()), "mixed_asinh" => |a| ox(x::<T>(a, 0).mixed_asinh()), "mixed_cosh" => |a| ox(x::<T>(a, 0).mixed_cosh()),
        "mixed_acosh" => |a| ox(x::<T>(a, 0).mixed_acosh()), "mixed_cbrt" => |a| ox(x::<T>(a, 0).mixed_cbrt()), "mixed_ceil" => |a| ox(x::<T>(a, 0).mixed_ceil()),
        "mixed_floor" => |a| ox(x::<T>(a, 0).mixed_floor()), "mixed_exp10" => |a| ox(x::<T>(a, 0).mixed_exp10()), "mixed_exp2" => |a| ox(x::<T>(a, 0).mixed_exp2()),
        "mixed_log" => |a| ox(x::<T>(a, 0).mixed_log()), "mixed_log10" => |a| ox(x::<T>(a, 0).mixed_log10()), "mixed_log2" => |a| ox(x::<T>(a, 0).mixed_log2()),
        "mixed_mag2db" => |a| ox(x::<T>(a, 0).mixed_mag2db()), "mixed_db2mag" => |a| ox(x::<T>(a, 0).mixed_db2mag()),
        "mixed_pow2db" => |a| ox(x::<T>(a, 0).mixed_pow2db()), "mixed_db2pow" => |a| ox(x::<T>(a, 0).mixed_db2pow()),
    );
    v
}

/// Every table of every type.
#[macro_export]
macro_rules! all_tables { () => {{
    use $crate::api::{cplx, fixed_powi, float, full, real_cart, root, unsig};
    use $crate::{floats, signed_fixed, signed_ints, unsigned_fixed, unsigned_ints};
    let mut t: Vec<Vec<$crate::Op>> = vec![];
    t.extend(floats!(cplx)); t.extend(floats!(full)); t.extend(floats!(float));
    t.extend(signed_ints!(cplx)); t.extend(unsigned_ints!(unsig));
    t.extend(signed_fixed!(cplx)); t.extend(signed_fixed!(full)); t.extend(signed_fixed!(fixed_powi));
    t.extend(unsigned_fixed!(unsig)); t.extend(unsigned_fixed!(root));
    t.extend(floats!(real_cart)); t.extend(signed_fixed!(real_cart)); t.extend(unsigned_fixed!(real_cart));
    t
}} }

/// How many raw arguments an entry takes (the exponent not counted).
pub fn arity(o: &Op) -> usize { (o.tag.as_bytes()[0] - b'0') as usize }

/// Any raw arguments at all: ordinary values, extremes, every bit pattern.
pub fn hostile(o: &Op, r: &mut crate::Rng) -> A {
    use crate::gen;
    let ty = &o.ty;
    let mut a = if r.chance(2) { gen::tuple(ty, r, 4) } else { [0; 4].map(|_| if r.chance(3) { gen::unary(ty, r) } else { gen::any(ty, r) }) };
    if ty.is_float() && r.chance(2) { for x in a.iter_mut() { if r.chance(2) { *x = gen::any_float(ty, r) } } }
    if o.name.contains("scalar f") { let f = f64::ty(); a[2] = gen::any_float(&f, r) }
    if o.name.contains("scalar i") { a[2] = if r.chance(3) { r.u64() as i64 as i128 } else { r.range(-20, 20) as i128 } }
    let n = arity(o);
    for x in a.iter_mut().skip(n) { *x = 0 }
    // long powers and iterations now and then: time and stack must not grow out of bounds
    if o.tag.ends_with('^') && !cfg!(miri) && r.chance(200) { a[3] = if o.name.contains("niirf") { r.range(1000, 10_000) } else { r.range(1000, 300_000) } as i128; return a }
    if o.tag.ends_with('^') { a[3] = match r.below(4) { 0 => r.range(-3, 3), 1 => r.range(-20, 20), 2 => r.range(0, 10), _ => r.range(-1000, 1000) } as i128 }
    a
}

/// The arguments at which functions of one number most often have a special case.
pub fn special(ty: &Ty) -> Vec<i128> {
    let mut v: Vec<i128> = [0.0, 1.0, -1.0, 0.25, 3.0].iter().filter(|x| ty.signed || **x >= 0.0).map(|x| ty.enc(*x)).collect();
    if ty.is_float() { v.extend([-0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, ty.max(), ty.min(), 1e-30, 1e18].map(|x| ty.enc(x))) }
    else { v.extend([ty.rmin(), ty.rmin() + 1, ty.rmax(), 1]) }
    v
}

/// Harmless arguments: every entry returns for them in the ordinary way.
pub fn benign(o: &Op, k: usize) -> A {
    let ty = &o.ty;
    let x = if ty.kind == Kind::Int { [1.0, 2.0, 1.0] } else { [0.5, 0.25, 0.75] };
    let mut a = [ty.enc(x[k % 3]), ty.enc(x[(k + 1) % 3]), ty.enc(x[(k + 2) % 3]), ty.enc(x[k % 3])];
    if o.name.contains("scalar f") { a[2] = 1f64.to_bits() as i128 }
    if o.name.contains("scalar i") { a[2] = 1 }
    for x in a.iter_mut().skip(arity(o)) { *x = 0 }
    if o.tag.ends_with('^') { a[3] = 1 + k as i128 % 3 }
    a
}
