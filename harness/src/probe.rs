//! A user defined number: wraps a supported type, implements the library's traits by delegation and
//! counts every operation it is asked for, so that what the library's generic code does with a type
//! it does not know can be observed step by step.
use crate::el::*;
use mixed_num::*;
use std::cell::Cell;
use std::ops::*;

thread_local! { static STEPS: Cell<u64> = const { Cell::new(0) }; static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) }; }
pub const STEP_PANIC: &str = "step limit of the probe type exceeded";
#[inline] fn tick() { STEPS.with(|s| { let n = s.get() + 1; s.set(n); if n > LIMIT.with(|l| l.get()) { panic!("{}", STEP_PANIC) } }) }
/// Start counting; a call that performs more than `limit` operations is stopped.
pub fn arm(limit: u64) { STEPS.with(|s| s.set(0)); LIMIT.with(|l| l.set(limit)) }
pub fn steps() -> u64 { let n = STEPS.with(|s| s.get()); LIMIT.with(|l| l.set(u64::MAX)); n }

/// Larger and more strictly aligned than what it wraps: the layout of a type must not matter.
#[derive(Copy, Clone, Debug, Default)]
#[repr(align(32))]
pub struct P<T>(pub T);
impl<T: PartialEq> PartialEq for P<T> { fn eq(&self, o: &Self) -> bool { tick(); self.0 == o.0 } }
impl<T: PartialOrd> PartialOrd for P<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { tick(); self.0.partial_cmp(&o.0) } }
impl<T: El> El for P<T> {
    const NAME: &'static str = T::NAME; const BITS: u32 = T::BITS; const FRAC: u32 = T::FRAC; const SIGNED: bool = T::SIGNED; const KIND: Kind = T::KIND;
    fn fr(r: i128) -> Self { P(T::fr(r)) }
    fn to(self) -> i128 { self.0.to() }
}
macro_rules! bin { ($($tr:ident $f:ident $ta:ident $fa:ident),*) => { $(
    impl<T: $tr<Output = T>> $tr for P<T> { type Output = P<T>; #[inline] fn $f(self, o: P<T>) -> P<T> { tick(); P(self.0.$f(o.0)) } }
    impl<T: $ta> $ta for P<T> { #[inline] fn $fa(&mut self, o: P<T>) { tick(); self.0.$fa(o.0) } }
)* } }
bin!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign);
impl<T: Div<Output = T>> Div for P<T> { type Output = P<T>; fn div(self, o: P<T>) -> P<T> { tick(); P(self.0 / o.0) } }
impl<T: Rem<Output = T>> Rem for P<T> { type Output = P<T>; fn rem(self, o: P<T>) -> P<T> { tick(); P(self.0 % o.0) } }
impl<T: Neg<Output = T>> Neg for P<T> { type Output = P<T>; fn neg(self) -> P<T> { tick(); P(-self.0) } }
macro_rules! conv { ($($p:ty)*) => { $( impl<T: MixedNumConversion<$p>> MixedNumConversion<$p> for P<T> {
    fn mixed_from_num(n: $p) -> Self { tick(); P(T::mixed_from_num(n)) }
    fn mixed_to_num(&self) -> $p { tick(); self.0.mixed_to_num() }
} )* } }
conv!(f32 f64 usize isize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
impl<T: MixedNum> MixedNum for P<T> {}
impl<T: MixedNum + MixedNumSigned> MixedNumSigned for P<T> {}
impl<T: MixedOps> MixedOps for P<T> {}
impl<T: MixedZero> MixedZero for P<T> { fn mixed_zero() -> Self { tick(); P(T::mixed_zero()) } }
impl<T: MixedOne> MixedOne for P<T> { fn mixed_one() -> Self { tick(); P(T::mixed_one()) } }
impl<T: MixedPi> MixedPi for P<T> { fn mixed_pi() -> Self { tick(); P(T::mixed_pi()) } fn mixed_tau() -> Self { tick(); P(T::mixed_tau()) } }
impl<T: MixedReal> MixedReal for P<T> {
    fn mixed_max_value() -> Self { tick(); P(T::mixed_max_value()) }
    fn mixed_min_value() -> Self { tick(); P(T::mixed_min_value()) }
    fn mixed_sign(&self) -> Self { tick(); P(self.0.mixed_sign()) }
    fn mixed_is_positive(&self) -> bool { tick(); self.0.mixed_is_positive() }
    fn mixed_is_negative(&self) -> bool { tick(); self.0.mixed_is_negative() }
}
macro_rules! un { ($($tr:ident [$($f:ident)*]),*) => { $( impl<T: $tr> $tr for P<T> { $( fn $f(&self) -> Self { tick(); P(self.0.$f()) } )* } )* } }
un!(MixedAbs [mixed_abs], MixedWrapPhase [mixed_wrap_phase], MixedCos [mixed_cos mixed_acos], MixedExp [mixed_exp], MixedSqrt [mixed_sqrt mixed_niirf]);
impl<T: MixedPowi> MixedPowi for P<T> { fn mixed_powi(&self, e: i32) -> Self { tick(); P(self.0.mixed_powi(e)) } }
impl<T: MixedSin> MixedSin for P<T> {
    fn mixed_sin(&self) -> Self { tick(); P(self.0.mixed_sin()) }
    fn mixed_sincos(&self) -> (Self, Self) { tick(); let (s, c) = self.0.mixed_sincos(); (P(s), P(c)) }
    fn mixed_asin(&self) -> Self { tick(); P(self.0.mixed_asin()) }
}
impl<T: MixedAtan> MixedAtan for P<T> {
    fn mixed_atan(&self) -> Self { tick(); P(self.0.mixed_atan()) }
    fn mixed_atan2(&self, o: Self) -> Self { tick(); P(self.0.mixed_atan2(o.0)) }
    fn mixed_atan2_poly(&self, o: Self) -> Self { tick(); P(self.0.mixed_atan2_poly(o.0)) }
}
impl<T: MixedTrigonometry> MixedTrigonometry for P<T> {}
impl<T: MixedConsts> MixedConsts for P<T> {}
impl<T: std::fmt::Display> std::fmt::Display for P<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
