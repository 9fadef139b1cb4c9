//! Erasure of the element types: every value is carried as a raw bit pattern (`i128`) plus the
//! description of its type, so that the monitors' oracles are independent of the code under test.
use fixed::types::extra::*;

/// An element type the library supports.
pub trait El: Copy + PartialOrd + core::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const BITS: u32;
    const FRAC: u32;
    const SIGNED: bool;
    const KIND: Kind;
    fn fr(raw: i128) -> Self;
    fn to(self) -> i128;
    fn ty() -> Ty {
        Ty { name: Self::NAME, bits: Self::BITS, frac: Self::FRAC, signed: Self::SIGNED, kind: Self::KIND }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Kind { Int, Fixed, F32, F64 }

#[derive(Copy, Clone, Debug)]
pub struct Ty { pub name: &'static str, pub bits: u32, pub frac: u32, pub signed: bool, pub kind: Kind }

impl Ty {
    pub fn is_float(&self) -> bool { matches!(self.kind, Kind::F32 | Kind::F64) }
    /// Largest raw value (ints and fixed; u128 saturates at i128::MAX, callers treat it apart).
    pub fn rmax(&self) -> i128 {
        if self.signed { if self.bits == 128 { i128::MAX } else { (1i128 << (self.bits - 1)) - 1 } }
        else if self.bits == 128 { i128::MAX } else { (1i128 << self.bits) - 1 }
    }
    pub fn rmin(&self) -> i128 {
        if self.signed { if self.bits == 128 { i128::MIN } else { -(1i128 << (self.bits - 1)) } } else { 0 }
    }
    pub fn ulp(&self) -> f64 { 2f64.powi(-(self.frac as i32)) }
    /// Value of a raw pattern as f64 (correctly rounded when more than 53 significant bits).
    pub fn val(&self, raw: i128) -> f64 {
        match self.kind {
            Kind::F32 => f32::from_bits(raw as u32) as f64,
            Kind::F64 => f64::from_bits(raw as u64),
            _ => raw as f64 * self.ulp(),
        }
    }
    pub fn max(&self) -> f64 { match self.kind { Kind::F32 => f32::MAX as f64, Kind::F64 => f64::MAX, _ => self.val(self.rmax()) } }
    pub fn min(&self) -> f64 { match self.kind { Kind::F32 => f32::MIN as f64, Kind::F64 => f64::MIN, _ => self.val(self.rmin()) } }
    /// Spacing of the type around x: ulp for fixed, eps*|x| (with a subnormal floor) for floats.
    pub fn quantum(&self, x: f64) -> f64 {
        match self.kind {
            Kind::F32 => (x.abs() * f32::EPSILON as f64).max(1.4e-45),
            Kind::F64 => (x.abs() * f64::EPSILON).max(5e-324),
            _ => self.ulp(),
        }
    }
    pub fn raw_in(&self, r: i128) -> bool { r >= self.rmin() && r <= self.rmax() }
    /// Raw pattern nearest to a real (saturating), for the generators.
    pub fn enc(&self, x: f64) -> i128 {
        match self.kind {
            Kind::F32 => (x as f32).to_bits() as i128,
            Kind::F64 => x.to_bits() as i128,
            _ => { let y = (x * 2f64.powi(self.frac as i32)).round();
                   if y >= self.rmax() as f64 { self.rmax() } else if y <= self.rmin() as f64 { self.rmin() } else { y as i128 } }
        }
    }
    pub fn show(&self, raw: i128) -> String {
        match self.kind {
            Kind::F32 => format!("{:?}f32(0x{:08x})", f32::from_bits(raw as u32), raw as u32),
            Kind::F64 => format!("{:?}f64(0x{:016x})", f64::from_bits(raw as u64), raw as u64),
            Kind::Int => format!("{}{}", raw, self.name),
            Kind::Fixed => format!("{}::from_bits({})[={:e}]", self.name, raw, self.val(raw)),
        }
    }
}

macro_rules! el_int { ($($t:ident $s:expr),*) => { $(
    impl El for $t {
        const NAME: &'static str = stringify!($t);
        const BITS: u32 = <$t>::BITS; const FRAC: u32 = 0; const SIGNED: bool = $s; const KIND: Kind = Kind::Int;
        #[inline] fn fr(r: i128) -> Self { r as $t }
        #[inline] fn to(self) -> i128 { self as i128 }
    } )* } }
el_int!(i8 true, i16 true, i32 true, i64 true, i128 true, isize true, u8 false, u16 false, u32 false, u64 false, u128 false, usize false);

impl El for f32 {
    const NAME: &'static str = "f32"; const BITS: u32 = 32; const FRAC: u32 = 0; const SIGNED: bool = true; const KIND: Kind = Kind::F32;
    #[inline] fn fr(r: i128) -> Self { f32::from_bits(r as u32) }
    #[inline] fn to(self) -> i128 { self.to_bits() as i128 }
}
impl El for f64 {
    const NAME: &'static str = "f64"; const BITS: u32 = 64; const FRAC: u32 = 0; const SIGNED: bool = true; const KIND: Kind = Kind::F64;
    #[inline] fn fr(r: i128) -> Self { f64::from_bits(r as u64) }
    #[inline] fn to(self) -> i128 { self.to_bits() as i128 }
}

macro_rules! el_fx { ($base:ident, $prim:ident, $s:expr, $b:expr, [$($u:ident)*]) => { $(
    impl El for fixed::$base<$u> {
        const NAME: &'static str = concat!(stringify!($base), "<", stringify!($u), ">");
        const BITS: u32 = $b; const FRAC: u32 = <$u as Unsigned>::U32; const SIGNED: bool = $s; const KIND: Kind = Kind::Fixed;
        #[inline] fn fr(r: i128) -> Self { Self::from_bits(r as $prim) }
        #[inline] fn to(self) -> i128 { self.to_bits() as i128 }
    } )* } }
el_fx!(FixedI8, i8, true, 8, [U0 U1 U2 U3 U4 U5]);
el_fx!(FixedU8, u8, false, 8, [U0 U1 U2 U3 U4 U5]);
el_fx!(FixedI16, i16, true, 16, [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13]);
el_fx!(FixedU16, u16, false, 16, [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13]);
el_fx!(FixedI32, i32, true, 32, [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29]);
el_fx!(FixedU32, u32, false, 32, [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29]);
el_fx!(FixedI64, i64, true, 64, [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38 U39 U40 U41 U42 U43 U44 U45 U46 U47 U48 U49 U50 U51 U52 U53 U54 U55 U56 U57 U58 U59 U60 U61]);
el_fx!(FixedU64, u64, false, 64, [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38 U39 U40 U41 U42 U43 U44 U45 U46 U47 U48 U49 U50 U51 U52 U53 U54 U55 U56 U57 U58 U59 U60 U61]);

/// `vec![f::<T>() for every T in the list]`
#[macro_export]
macro_rules! each_ty {
    ($f:ident; $base:ident [$($u:ident)*]) => { vec![$($f::<fixed::$base<fixed::types::extra::$u>>()),*] };
}
#[macro_export]
macro_rules! signed_fixed { ($f:ident) => {{
    let mut v = Vec::new();
    v.extend($crate::each_ty!($f; FixedI8 [U0 U1 U2 U3 U4 U5]));
    v.extend($crate::each_ty!($f; FixedI16 [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13]));
    v.extend($crate::each_ty!($f; FixedI32 [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29]));
    v.extend($crate::each_ty!($f; FixedI64 [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38 U39 U40 U41 U42 U43 U44 U45 U46 U47 U48 U49 U50 U51 U52 U53 U54 U55 U56 U57 U58 U59 U60 U61]));
    v
}} }
#[macro_export]
macro_rules! unsigned_fixed { ($f:ident) => {{
    let mut v = Vec::new();
    v.extend($crate::each_ty!($f; FixedU8 [U0 U1 U2 U3 U4 U5]));
    v.extend($crate::each_ty!($f; FixedU16 [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13]));
    v.extend($crate::each_ty!($f; FixedU32 [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29]));
    v.extend($crate::each_ty!($f; FixedU64 [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38 U39 U40 U41 U42 U43 U44 U45 U46 U47 U48 U49 U50 U51 U52 U53 U54 U55 U56 U57 U58 U59 U60 U61]));
    v
}} }
#[macro_export]
macro_rules! signed_ints { ($f:ident) => { vec![$f::<i8>(), $f::<i16>(), $f::<i32>(), $f::<i64>(), $f::<i128>(), $f::<isize>()] } }
#[macro_export]
macro_rules! unsigned_ints { ($f:ident) => { vec![$f::<u8>(), $f::<u16>(), $f::<u32>(), $f::<u64>(), $f::<u128>(), $f::<usize>()] } }
#[macro_export]
macro_rules! floats { ($f:ident) => { vec![$f::<f32>(), $f::<f64>()] } }
