//! Input generators over raw bit patterns.
use crate::el::*;
use crate::rng::Rng;

/// Landmarks taken from the code under test: the numeric literals of its sources (`MON_DICT`, comma
/// separated, filled in by check.py), as a fuzzer's dictionary. They only choose inputs.
pub fn dict() -> &'static [f64] {
    static D: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut v: Vec<f64> = std::env::var("MON_DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
        if v.is_empty() { v = vec![0.5, 2.0, 120.0] }
        v.extend([std::f64::consts::E, std::f64::consts::SQRT_2, std::f64::consts::LN_2, std::f64::consts::LN_10, f64::EPSILON, f32::EPSILON as f64]);
        v
    })
}
/// A dictionary literal in one of the roles it may have in the code: itself, its reciprocal, square,
/// root, a power of two or ten with that exponent.
pub fn literal(r: &mut Rng) -> f64 {
    let l = *r.pick(dict());
    match r.below(12) {
        0 => 1.0 / l,
        1 => l * l,
        2 => l.abs().sqrt(),
        3 => 2f64.powf(l.clamp(-1020.0, 1020.0)),
        4 => 2f64.powf(-l.clamp(-1020.0, 1020.0)),
        5 => l * *r.pick(&[2.0, 0.5, 3.0, 10.0, std::f64::consts::PI]),
        _ => l,
    }
}
/// A value at or close to a literal (a few quanta, or a small proportion away), or a raw pattern of its bits.
pub fn near_literal(ty: &Ty, r: &mut Rng) -> i128 {
    let l = literal(r);
    let l = if ty.signed && r.chance(2) { -l } else { l };
    let a = match r.below(8) {
        0 => { let k = r.logu(1e-9, 0.5); ty.enc(l * if r.chance(2) { 1.0 + k } else { 1.0 - k }) }
        1 if l.abs() < 1e38 => { let m = l.trunc() as i128; let m = m + r.range(-2, 2) as i128; return if ty.is_float() { wrap_bits(ty, m) } else { wrap(ty, m) } }
        2 => ty.enc(l),
        _ => { let k = r.range(-3, 3); step(ty, ty.enc(l), k) }
    };
    clampty(ty, a)
}
fn wrap_bits(ty: &Ty, m: i128) -> i128 { if ty.kind == Kind::F32 { m as u32 as i128 } else { m as u64 as i128 } }
/// An integer at or next to an integral literal.
pub fn int_literal(r: &mut Rng, max: i64) -> i64 {
    for _ in 0..20 { let l = literal(r); if l.abs() <= max as f64 { return l as i64 + r.range(-1, 1) } }
    r.range(0, 16)
}

/// A value of any real type: log-uniform magnitudes, small integers, type extremes, powers of two
/// and their neighbours, uniformly random patterns.
pub fn any(ty: &Ty, r: &mut Rng) -> i128 {
    if r.chance(12) { return near_literal(ty, r) }
    match ty.kind {
        Kind::F32 | Kind::F64 => any_float(ty, r),
        _ => {
            let bits = ty.bits.min(127);
            let m = match r.below(8) {
                0 => r.range(0, 16) as i128,
                1 => { let k = r.below(bits as u64) as u32; (1i128 << k).wrapping_add(r.range(-2, 2) as i128) }
                2 => ty.rmax() - r.range(0, 3) as i128,
                3 => { (r.range(0, 20) as i128) << ty.frac.min(bits - 1) }
                4 => if ty.signed { ty.rmin() + r.range(0, 3) as i128 } else { r.range(0, 3) as i128 },
                5 => r.u128() as i128,
                _ => { let k = 1 + r.below(bits as u64) as u32; (r.u128() >> (128 - k)) as i128 }
            };
            let m = if ty.signed && r.chance(2) { m.wrapping_neg() } else { m };
            wrap(ty, m)
        }
    }
}

/// Wrap a raw integer into the type's raw range.
pub fn wrap(ty: &Ty, m: i128) -> i128 {
    if ty.bits == 128 { return m }
    let sh = 128 - ty.bits;
    if ty.signed { (m << sh) >> sh } else { ((m as u128) << sh >> sh) as i128 }
}

/// Every kind of float: ordinary, huge, tiny, subnormal, signed zeros, infinities, NaN.
pub fn any_float(ty: &Ty, r: &mut Rng) -> i128 {
    let f32_ = ty.kind == Kind::F32;
    match r.below(10) {
        0 => if f32_ { (r.u64() as u32) as i128 } else { r.u64() as i128 },
        1 => { let sp = [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, ty.max(), ty.min(), 0.5, 2.0, if f32_ { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE }];
               ty.enc(*r.pick(&sp)) }
        _ => fin_float(ty, r),
    }
}

/// Finite floats of moderate to extreme magnitude.
pub fn fin_float(ty: &Ty, r: &mut Rng) -> i128 {
    if r.chance(12) { let a = near_literal(ty, r); if ty.val(a).is_finite() { return a } }
    let f32_ = ty.kind == Kind::F32;
    let s = if r.chance(2) { -1.0 } else { 1.0 };
    let v = match r.below(8) {
        0 => r.range(0, 100) as f64,
        1 => r.range(0, 64) as f64 / 16.0,
        2 => r.unit(),
        3 => r.uni(0.0, 10.0),
        4 => r.uni(0.0, 1000.0),
        5 => 2f64.powi(r.range(-40, 40) as i32) * (1.0 + r.range(-2, 2) as f64 * if f32_ { f32::EPSILON as f64 } else { f64::EPSILON }),
        6 => if f32_ { r.logu(1e-38, 3e38) } else { r.logu(1e-300, 1e300) },
        _ => r.logu(1e-6, 1e6),
    };
    ty.enc(s * v)
}

/// Signed real within [-lim, lim] clipped to the type, log-uniform or uniform, biased to landmarks.
pub fn within(ty: &Ty, r: &mut Rng, lim: f64) -> i128 {
    let hi = lim.min(ty.max());
    let lo = if ty.signed { (-lim).max(ty.min()) } else { 0.0 };
    let q = if ty.is_float() { 1e-9 } else { ty.ulp() };
    if r.chance(12) { let a = near_literal(ty, r); if (lo..=hi).contains(&ty.val(a)) { return a } }
    let x = match r.below(6) {
        0 => r.uni(lo, hi),
        1 => { let v = r.logu(q, hi.max(2.0 * q)); if lo < 0.0 && r.chance(2) { -v } else { v } }
        2 => { let v = r.range(0, 64) as f64 / 16.0; if lo < 0.0 && r.chance(2) { -v } else { v } }
        3 => { let v = 2f64.powi(r.range(-(ty.frac.min(30) as i64), 20) as i32); let v = if lo < 0.0 && r.chance(2) { -v } else { v }; v + r.range(-1, 1) as f64 * ty.quantum(v) }
        _ => r.uni(lo, hi),
    };
    ty.enc(x.clamp(lo, hi))
}

/// Negate a raw value (bit pattern of the negated number), wrapping.
pub fn neg(ty: &Ty, a: i128) -> i128 {
    match ty.kind {
        Kind::F32 => a ^ (1 << 31),
        Kind::F64 => ((a as u64) ^ (1 << 63)) as i128,
        _ => wrap(ty, a.wrapping_neg()),
    }
}

/// n correlated arguments whose magnitudes suit a random magnitude class, so that products and
/// sums of squares are often representable: independent values, then (half of the time) equal,
/// negated, neighbouring, scaled, zero, unit or extreme components.
pub fn tuple(ty: &Ty, r: &mut Rng, n: usize) -> [i128; 4] {
    let mut a = [0i128; 4];
    let root = if ty.bits == 128 || ty.is_float() { 1e9 } else { (ty.max() / 2.0).sqrt() };
    let cls = r.below(8);
    for x in a.iter_mut().take(n) {
        *x = match cls {
            0 => any(ty, r),
            1 => if ty.is_float() { fin_float(ty, r) } else { within(ty, r, ty.max() * 0.5) },
            2 => within(ty, r, 8.0),
            3 => within(ty, r, 1.0),
            4 => within(ty, r, root * 0.1),
            _ => within(ty, r, root),
        };
    }
    if r.chance(2) {
        for _ in 0..1 + r.below(2) { correlate(ty, r, &mut a, n) }
    }
    a
}

pub fn correlate(ty: &Ty, r: &mut Rng, a: &mut [i128; 4], n: usize) {
    let i = r.below(n as u64) as usize;
    let j = r.below(n as u64) as usize;
    a[i] = match r.below(14) {
        0 | 1 => a[j],
        12 => { let l = literal(r); let v = ty.val(a[j]) * if r.chance(2) { l } else { 1.0 / l }; let k = r.range(-2, 2); clampty(ty, step(ty, ty.enc(v), k)) }
        13 => { let l = literal(r); let v = ty.val(a[j]) + if r.chance(2) { l } else { -l }; let k = r.range(-2, 2); clampty(ty, step(ty, ty.enc(v), k)) }
        2 => neg(ty, a[j]),
        3 => step(ty, a[j], r.range(-2, 2)),
        4 | 5 => 0,
        6 => ty.enc(1.0),
        7 => if ty.signed { ty.enc(-1.0) } else { ty.enc(1.0) },
        8 => if ty.is_float() { ty.enc(ty.val(a[j]) * 0.5) } else { a[j] >> 1 },
        9 => step(ty, neg(ty, a[j]), r.range(-1, 1)),
        10 => { let v = r.range(-9, 9) as f64; ty.enc(if ty.signed { v } else { v.abs() }) }
        _ => { if ty.is_float() { ty.enc(if r.chance(2) { -0.0 } else { 1e-3 }) } else { r.range(0, 3) as i128 } }
    };
}

/// k quanta away in the order of the type (saturating at the type's ends, floats by bit pattern).
pub fn step(ty: &Ty, a: i128, k: i64) -> i128 {
    match ty.kind {
        Kind::F32 => { let b = a as u32; if (b & 0x7f80_0000) == 0x7f80_0000 { a } else { (b & 0x8000_0000 | ((b & 0x7fff_ffff) as i64 + k).max(0) as u32) as i128 } }
        Kind::F64 => { let b = a as u64; if (b >> 52 & 0x7ff) == 0x7ff { a } else { (b & (1 << 63) | ((b & !(1 << 63)) as i64).saturating_add(k).max(0) as u64) as i128 } }
        _ => a.saturating_add(k as i128).clamp(ty.rmin(), ty.rmax()),
    }
}

/// Arguments of a function of one variable: landmarks of the trigonometric functions, small
/// integers, powers of two, uniform and log-uniform values, type extremes.
pub fn unary(ty: &Ty, r: &mut Rng) -> i128 {
    use std::f64::consts::PI;
    if r.chance(8) { return near_literal(ty, r) }
    let v = match r.below(8) {
        0 => { let k = r.range(-9, 9) as f64 * PI / *r.pick(&[1.0, 2.0, 4.0, 6.0]); return clampty(ty, step(ty, ty.enc(k.clamp(ty.min(), ty.max())), r.range(-3, 3))) }
        1 => return any(ty, r),
        2 => return within(ty, r, 1.0),
        3 => return within(ty, r, 4.0),
        4 => return within(ty, r, 100.0),
        5 => { let k = r.range(-100, 100) as f64; k * PI + r.uni(-0.01, 0.01) }
        6 => r.uni(-PI, PI),
        _ => r.uni(-20.0, 20.0),
    };
    ty.enc(if ty.signed { v } else { v.abs() })
}
/// `unary` restricted to finite values.
pub fn unary_fin(ty: &Ty, r: &mut Rng) -> i128 { loop { let a = unary(ty, r); if !ty.is_float() || ty.val(a).is_finite() { return a } } }
pub fn clampty(ty: &Ty, a: i128) -> i128 { if ty.is_float() { a } else { a.clamp(ty.rmin(), ty.rmax()) } }

/// All raw patterns of a type of at most 16 bits.
pub fn all_raw(ty: &Ty) -> std::ops::RangeInclusive<i128> { ty.rmin()..=ty.rmax() }
