//! Accuracy bounds of the library's functions, as the properties state them (see DESIGN.md for
//! where the numbers come from). All take the element type and return absolute tolerances.
use crate::el::*;
use std::f64::consts::PI;

/// Floor that covers the f64 reference and the f64 literals the constants are made from.
pub const F64_FLOOR: f64 = 1e-15;

/// Quanta of error of one CORDIC circular pass.
pub fn cordic_quanta(ty: &Ty) -> f64 {
    let f = ty.frac as f64;
    if f <= 14.0 { 2.0 + 1.5 * f } else { 23.0 + 0.65 * (f - 14.0) }
}
pub fn turns(x: f64) -> f64 { (x.abs() / (2.0 * PI) + 0.5).floor() }

/// Error of a phase reduced by whole turns: every turn of the type's own tau is off by up to one quantum.
pub fn reduction(ty: &Ty, x: f64) -> f64 { turns(x) * (ty.quantum(2.0 * PI).min(if ty.is_float() { f64::INFINITY } else { ty.ulp() }) + 3e-16) }

pub fn sincos(ty: &Ty, x: f64) -> f64 {
    match ty.kind {
        Kind::F32 => 1.5e-7,
        Kind::F64 => 3e-16,
        _ => cordic_quanta(ty) * ty.ulp() + reduction(ty, x) + F64_FLOOR + 2.3e-16 * x.abs(),
    }
}
pub fn atan(ty: &Ty) -> f64 {
    let f = ty.frac as f64;
    (2.0 + 1.15 * f.min(14.0) + 0.45 * (f - 14.0).max(0.0)) * ty.ulp() + F64_FLOOR
}
/// `c2` = 1 - x*x, exact.
pub fn asin(ty: &Ty, c2: f64) -> f64 {
    let u = ty.ulp();
    atan(ty) * 1.1 / (c2.max(0.0).sqrt() + u.sqrt()) + u
}
/// exp(x) of a fixed point number: every whole power of e costs one rounding of e.
pub fn exp(ty: &Ty, x: f64) -> f64 {
    let ex = x.exp();
    let n = x.floor().abs();
    ((2.0 + 0.4 * ty.frac as f64) * ty.ulp() + F64_FLOOR) * (1.0 + ex) * (1.0 + n)
}
/// exp stays representable: also when e is rounded up by a quantum in each factor.
pub fn exp_fits(ty: &Ty, x: f64) -> bool {
    if x <= 0.0 { return true }
    let n = x.floor();
    n * (std::f64::consts::E + ty.ulp()).ln() + 1.0 + (1.15f64).ln() < ty.max().ln()
}

/// Error of the NIIRF square root after n iterations, of an argument normalised to [1/4, 1).
pub fn niirf_rel(n: u32) -> f64 { match n { 1 => 0.0215, 2 => 7.5e-4, 3 => 6e-5, 4 => 5e-6, 5 => 1e-6, 6 => 5e-8, _ => 1e-9 } }
pub fn pow2_above(s: f64) -> f64 { if s > 0.0 { 2f64.powi(s.log2().floor() as i32 + 1) } else { 0.0 } }

/// Error of the library's magnitude sqrt(re^2 + im^2) whose exact value is s.
pub fn mag(ty: &Ty, s: f64) -> f64 {
    if ty.is_float() { return 6.0 * ty.quantum(s) }
    if s == 0.0 { return 0.0 }
    let u = ty.ulp();
    // the squares lose up to 2 quanta together
    let sq = (2.0 * u).sqrt().min(2.0 * u / s);
    niirf_rel(2) * pow2_above(s) + 2.0 * u * (1.0 + 2.0 * s) + sq + s * 3e-16
}
/// re^2 + im^2 (and each of them) fits the type; floats: neither overflow nor underflow.
pub fn mag_fits(ty: &Ty, re: f64, im: f64) -> bool {
    if ty.is_float() {
        let (lo, hi) = if ty.kind == Kind::F32 { (1e-15, 1e18) } else { (1e-140, 1e150) };
        return [re, im].iter().all(|x| *x == 0.0 || (x.abs() > lo && x.abs() < hi))
    }
    re * re + im * im <= ty.max() * (1.0 - 1e-12) - 2.0 * ty.ulp()
}
/// Error of one component of a polar number's cartesian value.
pub fn polar_component(ty: &Ty, mag: f64, ang: f64) -> f64 {
    mag.abs() * sincos_wrapped(ty, ang) + if ty.is_float() { ty.quantum(mag) } else { 1.02 * ty.ulp() }
}
/// sin/cos after the library's own phase wrapping (floats too).
pub fn sincos_wrapped(ty: &Ty, x: f64) -> f64 {
    match ty.kind {
        Kind::F32 => 2e-7 + if turns(x) > 0.0 { x.abs() * 1.2e-7 + turns(x) * 3.6e-7 } else { 0.0 },
        Kind::F64 => 4e-16 + if turns(x) > 0.0 { x.abs() * 2.3e-16 + turns(x) * 6e-16 } else { 0.0 },
        _ => sincos(ty, x),
    }
}
