//! Reference conversions between number types, computed from raw patterns with integer arithmetic.
use crate::el::*;

/// A scalar operand of a primitive type, as an exact number: m * 2^e (None: not finite).
#[derive(Clone, Copy, Debug)]
pub enum Num { Exact(i128, i32), U128(u128), Nan, Inf(bool) }

pub fn decode(ty: &Ty, raw: i128) -> Num {
    match ty.kind {
        Kind::Int => if ty.bits == 128 && !ty.signed { Num::U128(raw as u128) } else { Num::Exact(raw, 0) },
        Kind::Fixed => Num::Exact(raw, -(ty.frac as i32)),
        Kind::F32 => float(f32::from_bits(raw as u32) as f64),
        Kind::F64 => float(f64::from_bits(raw as u64)),
    }
}
fn float(x: f64) -> Num {
    if x.is_nan() { return Num::Nan }
    if x.is_infinite() { return Num::Inf(x < 0.0) }
    if x == 0.0 { return Num::Exact(0, 0) }
    let b = x.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) as i128 | if e == 0 { 0 } else { 1 << 52 };
    let m = if x < 0.0 { -m } else { m };
    Num::Exact(m, if e == 0 { -1074 } else { e - 1075 })
}

/// m * 2^e shifted to an integer number of units 2^-frac: (floor, remainder kind) where the
/// remainder is compared with half a unit: 0 exact, 1 below half, 2 half, 3 above half.
/// None: does not fit i128.
pub fn scale(m: i128, e: i32, frac: i32) -> Option<(i128, u8)> {
    let s = e + frac;
    if m == 0 { return Some((0, 0)) }
    if s >= 0 {
        if s >= 127 { return None }
        let r = m.checked_mul(1i128.checked_shl(s as u32)?)?;
        return Some((r, 0))
    }
    let k = -s;
    if k >= 127 { return Some(if m < 0 { (-1, 3) } else { (0, 1) }) }
    let f = m >> k;
    let rem = m - (f << k);
    let half = 1i128 << (k - 1);
    Some((f, if rem == 0 { 0 } else if rem < half { 1 } else if rem == half { 2 } else { 3 }))
}

/// What converting a number into a type may yield: Exactly one raw pattern, or outside the domain.
/// Rounding: into integers from floats towards zero; into fixed point from floats to nearest (ties
/// to even), from fixed point to integers downwards; into floats to nearest.
pub fn convert(from: &Ty, raw: i128, to: &Ty) -> Option<i128> {
    let n = decode(from, raw);
    match to.kind {
        Kind::Int if from.is_float() => {
            // the language's float to integer conversion: truncate, saturate, NaN to zero
            Some(match n {
                Num::Nan => 0,
                Num::Inf(neg) => if to.bits == 128 && !to.signed { if neg { 0 } else { -1 } } else if neg { to.rmin() } else { to.rmax() },
                Num::Exact(m, e) => {
                    let u128_ = to.bits == 128 && !to.signed;
                    match scale(m.abs(), e, 0) {
                        Some((f, _)) => { let f = if m < 0 { -f } else { f }; if u128_ { f.max(0) } else { f.clamp(to.rmin(), to.rmax()) } }
                        None => if u128_ { if m < 0 { 0 } else { let s = e as u32; if s + 128 - m.leading_zeros() > 128 { -1 } else { ((m as u128) << s) as i128 } } } else if m < 0 { to.rmin() } else { to.rmax() },
                    }
                }
                Num::U128(_) => unreachable!(),
            })
        }
        Kind::Int => match n {
            // between integers: the value when representable, else two's complement truncation
            Num::U128(_) => { if to.bits == 128 { Some(raw) } else { Some(crate::gen::wrap(to, raw)) } }
            Num::Exact(m, 0) if from.kind == Kind::Int => Some(if to.bits == 128 { m } else { crate::gen::wrap(to, m) }),
            Num::Exact(m, e) => { let (f, _) = scale(m, e, 0)?; if to.bits == 128 && !to.signed { if f < 0 { None } else { Some(f) } } else if to.raw_in(f) { Some(f) } else { None } }
            _ => None,
        },
        Kind::Fixed => match n {
            Num::U128(u) => { if u > i128::MAX as u128 { return None } let (f, _) = scale(u as i128, 0, to.frac as i32)?; if to.raw_in(f) { Some(f) } else { None } }
            Num::Exact(m, e) => {
                let (f, r) = scale(m, e, to.frac as i32)?;
                let f = if from.is_float() { if r == 3 || (r == 2 && f & 1 == 1) { f + 1 } else { f } } else { f };
                if to.raw_in(f) { Some(f) } else { None }
            }
            _ => None,
        },
        Kind::F32 | Kind::F64 => {
            let f32_ = to.kind == Kind::F32;
            Some(match n {
                Num::Nan => to.enc(f64::NAN),
                Num::Inf(neg) => to.enc(if neg { f64::NEG_INFINITY } else { f64::INFINITY }),
                Num::U128(u) => if f32_ { (u as f32).to_bits() as i128 } else { (u as f64).to_bits() as i128 },
                Num::Exact(m, e) => if from.is_float() {
                        let x = from.val(raw);
                        if f32_ { (x as f32).to_bits() as i128 } else { x.to_bits() as i128 }
                    } else {
                        // i128 to float is correctly rounded, the power of two scaling is exact
                        let sc = 2f64.powi(e);
                        if f32_ { ((m as f32) * sc as f32).to_bits() as i128 } else { ((m as f64) * sc).to_bits() as i128 }
                    },
            })
        }
    }
}
