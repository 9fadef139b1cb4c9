//! C04: arithmetic of a complex number with a real scalar of another type.
use mixed_num::*;
use mixed_num_mon::{conv::convert, *};

/// Raw arguments: re, im of the complex number, raw pattern of the scalar.
struct S { name: &'static str, ty: Ty, sc: Ty, tag: u8, f: F }

trait Tgt: El + MixedNum + MixedOps + MixedReal + MixedNumConversion<usize> + MixedNumConversion<isize> + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u128>
    + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i128> {}
impl<T: El + MixedNum + MixedOps + MixedReal + MixedNumConversion<usize> + MixedNumConversion<isize> + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u128>
    + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i128>> Tgt for T {}

macro_rules! sc { ($v:ident, $T:ty, $s:ty) => {{
    let (ty, sc) = (<$T>::ty(), <$s>::ty());
    $v.push(S { name: "Cartesian + scalar", ty, sc, tag: b'+', f: |a| oc(c::<$T>(a, 0) + x::<$s>(a, 2)) });
    $v.push(S { name: "Cartesian - scalar", ty, sc, tag: b'-', f: |a| oc(c::<$T>(a, 0) - x::<$s>(a, 2)) });
    $v.push(S { name: "Cartesian * scalar", ty, sc, tag: b'*', f: |a| oc(c::<$T>(a, 0) * x::<$s>(a, 2)) });
    $v.push(S { name: "Cartesian += scalar", ty, sc, tag: b'+', f: |a| { let mut z = c::<$T>(a, 0); z += x::<$s>(a, 2); oc(z) } });
    $v.push(S { name: "Cartesian -= scalar", ty, sc, tag: b'-', f: |a| { let mut z = c::<$T>(a, 0); z -= x::<$s>(a, 2); oc(z) } });
}} }
macro_rules! dv { ($v:ident, $T:ty, $s:ty) => {{
    let (ty, sc) = (<$T>::ty(), <$s>::ty());
    $v.push(S { name: "Cartesian / scalar", ty, sc, tag: b'/', f: |a| oc(c::<$T>(a, 0) / x::<$s>(a, 2)) });
    $v.push(S { name: "Cartesian /= scalar", ty, sc, tag: b'/', f: |a| { let mut z = c::<$T>(a, 0); z /= x::<$s>(a, 2); oc(z) } });
}} }
fn all<T: Tgt>() -> Vec<S> {
    let mut v = vec![];
    sc!(v, T, f32); sc!(v, T, f64); sc!(v, T, i8); sc!(v, T, i16); sc!(v, T, i32); sc!(v, T, i64); sc!(v, T, i128); sc!(v, T, isize);
    sc!(v, T, u8); sc!(v, T, u16); sc!(v, T, u32); sc!(v, T, u64); sc!(v, T, u128); sc!(v, T, usize);
    dv!(v, T, f32); dv!(v, T, f64); dv!(v, T, i8); dv!(v, T, i16); dv!(v, T, i32); dv!(v, T, i64); dv!(v, T, i128); dv!(v, T, isize);
    v
}
fn some<T: Tgt>() -> Vec<S> { let mut v = vec![]; sc!(v, T, f64); sc!(v, T, i32); sc!(v, T, u8); dv!(v, T, f64); dv!(v, T, i32); dv!(v, T, f32); v }
fn dsc<T: Tgt + MixedNumSigned>() -> Vec<S> {
    let ty = T::ty();
    vec![S { name: "ops::div_scalar_cartesian", ty, sc: ty, tag: b'/', f: |a| oc(mixed_num::complex::div_scalar_cartesian(c::<T>(a, 0), x::<T>(a, 2))) }]
}

fn judge(w: &mut W, o: &S, a: &A) {
    let ty = &o.ty;
    let s = if o.sc.name == ty.name { Some(a[2]) } else { convert(&o.sc, a[2], ty) };
    let Some(s) = s else { w.skip(); return };
    let sv = ty.val(s);
    let sh = |r: &[i128]| show(ty, r);
    let bad = |w: &mut W, r: &Out<A>, e: String| { let g = match r { Out::Ok(r) => sh(&r[..2]), Out::Panic(m) => format!("panic ({})", m) };
        w.violate(format!("{}:{}:{}", o.name, ty.name, o.sc.name), format!("({}) {} {} gave {}, expected {}", sh(&a[..2]), o.name, o.sc.show(a[2]), g, e)) };
    // expected pairs (value, tolerance), or exact raw patterns
    let zero = if ty.is_float() { sv == 0.0 } else { s == 0 };
    let exact: Option<[i128; 2]>;
    let mut near: Option<[(f64, f64); 2]> = None;
    let mut fx: Option<[(i128, i128, i128); 2]> = None; // |r*k - n| <= t
    let big = ty.bits == 128 && !ty.signed;
    if big && (a[0] < 0 || a[1] < 0 || s < 0) { w.skip(); return }
    if o.tag == b'/' && zero {
        let m = if big { -1 } else if ty.is_float() { ty.enc(ty.max()) } else { ty.rmax() };
        exact = Some([m, m]);
    } else if ty.is_float() {
        exact = None;
        let f = |z: i128| -> (f64, f64) {
            if ty.kind == Kind::F32 { let (p, q) = (f32::from_bits(z as u32), f32::from_bits(s as u32));
                let r = match o.tag { b'+' => p + q, b'-' => p - q, b'*' => p * q, _ => p / q } as f64; (r, 0.0) }
            else { let (p, q) = (f64::from_bits(z as u64), f64::from_bits(s as u64));
                let r = match o.tag { b'+' => p + q, b'-' => p - q, b'*' => p * q, _ => p / q }; (r, 0.0) } };
        let im = if matches!(o.tag, b'+' | b'-') { (ty.val(a[1]), 0.0) } else { f(a[1]) };
        near = Some([f(a[0]), im]);
    } else {
        match o.tag {
            b'+' | b'-' => {
                let Some(re) = (if o.tag == b'+' { a[0].checked_add(s) } else { a[0].checked_sub(s) }) else { w.skip(); return };
                if !ty.raw_in(re) { w.skip(); return }
                exact = Some([re, a[1]]);
            }
            b'*' => {
                exact = None;
                let g = (ty.frac > 0) as i128;
                let mut e = [(0, 0, 0); 2];
                for i in 0..2 {
                    let Some(p) = a[i].checked_mul(s) else { w.skip(); return };
                    let q = p >> ty.frac;
                    if q - g < ty.rmin() || q + g > ty.rmax() { w.skip(); return }
                    e[i] = (1i128 << ty.frac, p, g << ty.frac);
                }
                fx = Some(e);
            }
            _ => {
                exact = None;
                let g = (ty.frac > 0) as i128;
                let mut e = [(0, 0, 0); 2];
                for i in 0..2 {
                    if ty.bits == 128 && a[i] == i128::MIN { w.skip(); return }
                    // quotient in quanta: a * 2^frac / s
                    let n = a[i] << ty.frac;
                    if ty.bits <= 64 || ty.frac == 0 {
                        let q = n / s;
                        if q - g < ty.rmin() || q + g > ty.rmax() { w.skip(); return }
                        if ty.frac == 0 { e[i] = (1, q, 0) } else { e[i] = (s, n, s.abs()) }
                    }
                }
                fx = Some(e);
            }
        }
    }
    let r = w.call(o.name, ty.name, &a[..3], || (o.f)(a));
    if let Some(e) = exact {
        match &r { Out::Ok(g) if g[0] == e[0] && g[1] == e[1] => {} _ => bad(w, &r, sh(&e)) }
        if o.tag == b'/' { w.note("scalar divisor zero after the type cast", 1) }
    } else if let Some(e) = near {
        match &r { Out::Ok(g) if (0..2).all(|i| { let v = ty.val(g[i]); v == e[i].0 || (v.is_nan() && e[i].0.is_nan()) || ((v - e[i].0).abs() <= 2.0 * ty.quantum(e[i].0) && v.is_finite()) }) => {} _ => bad(w, &r, format!("{:e}, {:e}", e[0].0, e[1].0)) }
    } else if let Some(e) = fx {
        match &r { Out::Ok(g) if (0..2).all(|i| g[i].checked_mul(e[i].0).and_then(|x| x.checked_sub(e[i].1)).map(|d| d.abs() <= e[i].2).unwrap_or(false)) => {}
            _ => bad(w, &r, format!("{:e}, {:e}", e[0].1 as f64 / e[0].0 as f64 * ty.ulp(), e[1].1 as f64 / e[1].0 as f64 * ty.ulp())) }
    }
    w.judged(o.name, o.sc.name, &a[..3], a[2] != 0, false);
    if w.wants_sample() && a[2] != 0 && a[1] != 0 { if let Out::Ok(g) = &r { w.sample(format!("({}) {} {} -> ({})", sh(&a[..2]), o.name, o.sc.show(a[2]), sh(&g[..2]))) } }
}

/// A scalar which the target can often hold: its own range, the target's range, target landmarks.
fn scalar(sc: &Ty, ty: &Ty, r: &mut Rng) -> i128 {
    let lim = ty.max().min(sc.max());
    match r.below(8) {
        0 => gen::any(sc, r),
        1 => 0,
        2 => sc.enc(if sc.signed && r.chance(2) { -1.0 } else { 1.0 }),
        3 => gen::within(sc, r, 16.0),
        4 => if sc.is_float() { sc.enc(r.range(-6, 6) as f64 * ty.quantum(1.0).max(1e-30) * 0.25) } else { gen::within(sc, r, 4.0) },
        5 => gen::within(sc, r, lim),
        _ => gen::within(sc, r, lim.sqrt()),
    }
}

fn main() {
    mon::run("C04", "one operation of one complex number with one scalar of one scalar type, the converted scalar and the result being representable; all 14 scalar types on ints, floats and 16 fixed formats, three scalar types on all other formats; non-trivial: scalar differs from zero", |ctx| {
        let mut tabs: Vec<Vec<S>> = vec![];
        tabs.extend(signed_ints!(all)); tabs.extend(unsigned_ints!(all)); tabs.extend(floats!(all));
        tabs.extend(each_ty!(all; FixedI8 [U2])); tabs.extend(each_ty!(all; FixedU8 [U4])); tabs.extend(each_ty!(all; FixedI16 [U0 U8])); tabs.extend(each_ty!(all; FixedU16 [U5]));
        tabs.extend(each_ty!(all; FixedI32 [U8 U20 U29])); tabs.extend(each_ty!(all; FixedU32 [U14])); tabs.extend(each_ty!(all; FixedI64 [U0 U20 U32 U61])); tabs.extend(each_ty!(all; FixedU64 [U40]));
        tabs.extend(signed_fixed!(some)); tabs.extend(unsigned_fixed!(some));
        tabs.extend(signed_fixed!(dsc)); tabs.extend(signed_ints!(dsc)); tabs.extend(floats!(dsc));
        let n = ctx.n(10_000, 400_000);
        tabs.into_iter().map(|t| -> Job { Box::new(move |w: &mut W| for o in &t {
            let n = if o.name.starts_with("ops::") { n * 4 } else { n };
            for _ in 0..n {
                let mut r = w.rng.clone();
                let z = gen::tuple(&o.ty, &mut r, 2);
                let s = if o.sc.name == o.ty.name { if r.chance(4) { 0 } else { gen::tuple(&o.ty, &mut r, 1)[0] } } else { scalar(&o.sc, &o.ty, &mut r) };
                w.rng = r;
                judge(w, o, &[z[0], z[1], s, 0]);
            }
            w.op_count(o.name, n);
        }) }).collect()
    })
}
