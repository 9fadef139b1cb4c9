//! Type-erased operation tables: each entry calls one public entry point of the library.
use crate::el::*;
use mixed_num::{Cartesian, Polar};

pub type A = [i128; 4];
pub type F = fn(&A) -> A;

/// One entry point on one element type. `tag` says which oracle judges it.
#[derive(Clone, Copy)]
pub struct Op { pub name: &'static str, pub ty: Ty, pub tag: &'static str, pub f: F }

#[inline] pub fn x<T: El>(a: &A, i: usize) -> T { T::fr(a[i]) }
#[inline] pub fn c<T: El>(a: &A, i: usize) -> Cartesian<T> { Cartesian { re: T::fr(a[i]), im: T::fr(a[i + 1]) } }
#[inline] pub fn p<T: El>(a: &A, i: usize) -> Polar<T> { Polar { mag: T::fr(a[i]), ang: T::fr(a[i + 1]) } }
#[inline] pub fn nc<T: El>(a: &A, i: usize) -> num::Complex<T> { num::Complex { re: T::fr(a[i]), im: T::fr(a[i + 1]) } }
#[inline] pub fn oc<T: El>(r: Cartesian<T>) -> A { [r.re.to(), r.im.to(), 0, 0] }
#[inline] pub fn op<T: El>(r: Polar<T>) -> A { [r.mag.to(), r.ang.to(), 0, 0] }
#[inline] pub fn ox<T: El>(r: T) -> A { [r.to(), 0, 0, 0] }
#[inline] pub fn ox2<T: El>(r: (T, T)) -> A { [r.0.to(), r.1.to(), 0, 0] }

/// `tab!(v, T, "tag", "name" => |a| expr, ...)`
#[macro_export]
macro_rules! tab {
    ($v:ident, $T:ty, $tag:expr; $($n:expr => $f:expr),* $(,)?) => {
        $( $v.push($crate::ops::Op { name: $n, ty: <$T as $crate::el::El>::ty(), tag: $tag, f: $f }); )*
    };
}

/// Same number? (all NaN patterns are one value; +0 and -0 differ only if `zero_sign`)
pub fn same(ty: &Ty, a: i128, b: i128, zero_sign: bool) -> bool {
    if a == b { return true }
    if !ty.is_float() { return false }
    let (x, y) = (ty.val(a), ty.val(b));
    (x.is_nan() && y.is_nan()) || (!zero_sign && x == 0.0 && y == 0.0)
}

pub fn show(ty: &Ty, a: &[i128]) -> String { a.iter().map(|v| ty.show(*v)).collect::<Vec<_>>().join(", ") }
