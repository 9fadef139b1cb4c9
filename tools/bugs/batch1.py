OPS='src/complex/ops.rs'; CART='src/complex/cartesian_impl.rs'; POL='src/complex/polar_impl.rs'
TRIG='src/trigonometry.rs'; SQ='src/trigonometry/sqrt.rs'; AT='src/trigonometry/atan.rs'
FIX='src/fixed_impl.rs'; INT='src/int_impl.rs'; FL='src/float_impl.rs'; F32='src/float_impl/f32_impl.rs'; F64='src/float_impl/f64_impl.rs'
FMT='src/complex/cartesian_impl/num_complex_impl.rs'; CPX='src/complex.rs'
USE='use mixed_num::*; use mixed_num::traits::*; use mixed_num::complex;\n#[allow(unused)] use fixed::{FixedI8,FixedI16,FixedI32,FixedI64,FixedU32,types::extra::*};\n'
BUGS=[
dict(id='karatsuba-product', prop='C01', subs=[(OPS,"    let im = (a*d) + (b*c);\n","    // Three multiplications instead of four.\n    let im = (a+b)*(c+d) - (a*c) - (b*d);\n")],
 demo=USE+'''fn main(){
 let x=Cartesian::new(30000i32,30000); let y=Cartesian::new(20000i32,-20000);
 let z=std::panic::catch_unwind(||Cartesian::new(40000i32,10000)*Cartesian::new(40000i32,10000));
 assert_eq!((x*y).im,0); assert_eq!(z.ok().map(|z|(z.re,z.im)),Some((1500000000,800000000)));
}''', needs='a product whose parts are representable while (a+b)(c+d) is not, or floats of very different size',
 breaks='the imaginary part of a product overflows or loses all digits although it is representable'),
dict(id='smith-quotient', prop='C02', subs=[(OPS,"    let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));\n    return Cartesian::new(re, im);","    // The squared magnitude is shared by the parts.\n    let den = c.mixed_powi(2)+d.mixed_powi(2);\n    let im = b*c/den-a*d/den;\n    return Cartesian::new(re, im);")],
 demo=USE+'''fn main(){ // (3+4i)/(2+2i)... = (14+2i)/8
 let q=complex::div_cartesian(Cartesian::new(2i32,5),Cartesian::new(3i32,2));
 assert_eq!((q.re,q.im),(16/13,11/13));
 let q=complex::div_cartesian(Cartesian::new(5i32,6),Cartesian::new(3i32,4)); assert_eq!((q.re,q.im),(39/25,(18-20)/25));
 let q=complex::div_cartesian(Cartesian::new(7i32,13),Cartesian::new(5i32,3)); assert_eq!((q.re,q.im),((35+39)/34,(65-21)/34));
 let q=complex::div_cartesian(Cartesian::new(9i32,20),Cartesian::new(4i32,1)); assert_eq!((q.re,q.im),((36+20)/17,(80-9)/17));
 let q=complex::div_cartesian(Cartesian::new(12i32,9),Cartesian::new(5i32,1)); assert_eq!((q.re,q.im),((60+9)/26,(45-12)/26));
 let q=complex::div_cartesian(Cartesian::new(-12i32,5),Cartesian::new(4i32,1)); assert_eq!((q.re,q.im),((-48+5)/17,(20+12)/17));
 let q=complex::div_cartesian(Cartesian::new(-12i32,4),Cartesian::new(4i32,1)); assert_eq!((q.re,q.im),((-48+4)/17,(16+12)/17));
 let q=complex::div_cartesian(Cartesian::new(-10i32,3),Cartesian::new(3i32,1)); assert_eq!((q.re,q.im),((-30+3)/10,(9+10)/10));
 let q=complex::div_cartesian(Cartesian::new(-5i32,2),Cartesian::new(3i32,1)); assert_eq!((q.re,q.im),((-15+2)/10,(6+5)/10));
}''', needs='the free division function with integers (or narrow fixed point) whose two products each leave a remainder',
 breaks='the imaginary part is truncated twice and is off by one for integers'),
dict(id='sub-assign-in-scalar-type', prop='C03', subs=[(CART,"        self.re =  self.re-T2::mixed_from_num(rhs);","        let re: T1 = self.re.mixed_to_num();\n        self.re =  T2::mixed_from_num(re-rhs);")],
 demo=USE+'''fn main(){
 let c=Cartesian::new(16777217f64,1.0); let mut d=c; d-=1f32; assert_eq!(d,c-1f32);
 let c=Cartesian::new(2.75f32,1.0); let mut d=c; d-=1i32; assert_eq!(d,c-1i32);
}''', needs='-= with a scalar type which cannot hold the real part exactly',
 breaks='the compound subtraction rounds the real part to the scalar type first, unlike the binary operator'),
dict(id='scalar-sub-negates', prop='C04', subs=[(CART,"        return Cartesian::new(self.re-T2::mixed_from_num(rhs), self.im);","        return self + (T1::mixed_from_num(0i32)-rhs);"),(CART,"impl <T1: MixedNum + MixedOps, T2: MixedOps + MixedNumConversion<T1>> core::ops::Sub<T1> for Cartesian<T2> {","impl <T1: MixedNum + MixedOps + MixedZero, T2: MixedNum + MixedOps + MixedNumConversion<T1>> core::ops::Sub<T1> for Cartesian<T2> {")],
 demo=USE+'''fn main(){
 let c=Cartesian::new(5f64,1.0); let r=std::panic::catch_unwind(||(c-i8::MIN).re); assert_eq!(r.ok(),Some(133.0));
 let r=std::panic::catch_unwind(||(c-3u32).re); assert_eq!(r.ok(),Some(2.0));
}''', needs='subtracting an unsigned scalar or the smallest value of a signed scalar type',
 breaks='the scalar is negated in its own type, which cannot hold the negation'),
dict(id='polar-product-underflow', prop='C05', subs=[(OPS,"    if a.mag==T::mixed_from_num(0) || b.mag==T::mixed_from_num(0)\n","    if a.mag*b.mag==T::mixed_from_num(0)\n")],
 demo=USE+'''fn main(){
 type F=FixedI32<U16>; let a=Polar::new(F::from_num(0.001),F::from_num(1)); let b=Polar::new(F::from_num(0.001),F::from_num(0.5));
 let p=a*b; assert_eq!(p.ang,F::from_num(1.5));
}''', needs='two non-zero magnitudes whose product rounds to zero',
 breaks='the angle of a product which underflows is dropped'),
dict(id='polar-constructor-poly', prop='C06', subs=[(POL,"        return ops::to_polar(Cartesian::new(re,im));","        let number = Cartesian::new(re,im);\n        return Polar::new(ops::abs(number), im.mixed_atan2_poly(re));")],
 demo=USE+'''fn main(){
 let p=Polar::<f64>::new_from_cartesian(1.0,0.5); let q=Cartesian::new(1.0f64,0.5).to_polar();
 assert!((p.ang-q.ang).abs()<1e-9, "{} {}", p.ang, q.ang);
}''', needs='constructing a polar number from cartesian parts off the axes',
 breaks='the constructor uses the coarse polynomial angle and disagrees with the conversion'),
dict(id='order-by-imaginary-on-nan', prop='C07', subs=[(CPX,"#[derive(PartialEq, PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Cartesian complex number.","#[derive(PartialEq, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Cartesian complex number."),
  (CPX,"    /// Imaginary part.\n    pub im: T,\n}\n","    /// Imaginary part.\n    pub im: T,\n}\n\nimpl<T: PartialOrd> PartialOrd for Cartesian<T> {\n    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n        if self.re < other.re {\n            return Some(core::cmp::Ordering::Less);\n        }\n        if self.re > other.re {\n            return Some(core::cmp::Ordering::Greater);\n        }\n        return self.im.partial_cmp(&other.im);\n    }\n}\n")],
 demo=USE+'''fn main(){ let a=Cartesian::new(f32::NAN,1.0); let b=Cartesian::new(2.0f32,3.0);
 assert_eq!(a.partial_cmp(&b),None); assert!(!(a<b)); assert_eq!(b.partial_cmp(&a),None);}''', needs='a NaN real part in a comparison',
 breaks='numbers whose real parts cannot be compared are ordered by their imaginary parts'),
dict(id='wrap-keeps-pi', prop='C08', subs=[(TRIG,"    while mixed_pi <= temp_scalar\n","    while mixed_pi < temp_scalar\n")],
 demo=USE+'''fn main(){ type F=FixedI32<U20>; let p=F::mixed_pi(); let w=p.mixed_wrap_phase(); assert!(w<p && -p<=w); let w=3.0f64.mixed_wrap_phase(); assert_eq!(w,3.0);
 let w=f32::mixed_pi().mixed_wrap_phase(); assert!(w<f32::mixed_pi());}''', needs='a phase of exactly pi of the type (or pi plus whole turns)',
 breaks='pi is returned although the range excludes it'),
dict(id='int-from-float-through-i64', prop='C09', subs=[(INT,"        impl_mixed_num_conversion!($T, f64);\n","        impl MixedNumConversion<f64> for $T\n        {\n            #[inline(always)]\n            fn mixed_from_num( number:f64 ) -> Self {\n                return number as i64 as Self;\n            }\n            #[inline(always)]\n            fn mixed_to_num( &self ) -> f64 {\n                return *self as f64;\n            }\n        }\n")],
 demo=USE+'''fn main(){ assert_eq!(u64::mixed_from_num(1.2e19f64),12000000000000000000); assert_eq!(i8::mixed_from_num(300.0f64),127); }''',
 needs='a double beyond i64, or out of the range of a narrower integer',
 breaks='large doubles convert to the wrong integer and out of range ones wrap instead of saturating'),
dict(id='tau-in-single-precision', prop='C10', subs=[(FIX,"                return Self::from_num(6.2831853071795864769252867665590057683943387987502116419498891846156328124);","                return Self::from_num(6.2831853071795864769252867665590057683943387987502116419498891846156328124f32);")],
 demo=USE+'''fn main(){ type F=FixedI64<U48>; let t:f64=F::mixed_tau().to_num(); assert!((t-core::f64::consts::TAU).abs()<1e-12, "{}", t); }''',
 needs='the two pi constant of a format with more than about 21 fractional bits',
 breaks='two pi is only accurate to single precision'),
dict(id='powi-squares-once-more', prop='C11', subs=[(TRIG,"    let mut temp:T = base;\n    for _i in 0..power-1 {\n        temp = temp*base;\n    }\n    return temp;","    // Square and multiply.\n    let mut result = T::mixed_from_num(1);\n    let mut square = base;\n    let mut rest = power;\n    while rest != 0 {\n        if rest & 1 == 1 {\n            result = result*square;\n        }\n        square = square*square;\n        rest = rest >> 1;\n    }\n    return result;")],
 demo=USE+'''fn main(){ let r=std::panic::catch_unwind(||10i32.mixed_powi(9)); assert_eq!(r.ok(),Some(1000000000)); }''',
 needs='a power which is representable while the next square of the base is not',
 breaks='integer powers overflow although the result is representable'),
dict(id='beta-table-typo', prop='C12', subs=[(SQ,"T::mixed_from_num(0.502930)];","T::mixed_from_num(0.205930)];")],
 demo=USE+'''fn main(){ let mut w=0f64; for i in 0..1000 { let x=0.94+0.06*i as f64/1000.0; w=w.max((x.mixed_niirf()-x.sqrt()).abs()); } assert!(w<7.6e-4,"{}",w); }''',
 needs='an argument which normalises into the last of the twelve regions',
 breaks='the square root is only accurate to about a percent there'),
dict(id='octant-by-squares', prop='C13', subs=[(AT,"            if y_abs - x_abs < T::mixed_from_num( 0.0 )\n","            if y_abs.mixed_powi(2) < x_abs.mixed_powi(2)\n")],
 demo=USE+'''fn main(){ let y=1e-30f32; let x=1e-25f32; let a=y.mixed_atan2_poly(x); assert!((a-y.atan2(x)).abs()<0.0049,"{}",a);
 type F=FixedI32<U16>; let a=F::from_num(0.0001).mixed_atan2_poly(F::from_num(0.003)); assert!((a.to_num::<f64>()-0.02).abs()<0.03,"{}",a);}''',
 needs='both arguments so small (or large) that their squares are equal',
 breaks='points of the first octant are taken for the second'),
dict(id='cos-wraps-one-side', prop='C14', subs=[(TRIG,"    x_shifted = wrap_phase(x_shifted);\n","    if mixed_pi_half < x\n    {\n        x_shifted = wrap_phase(x_shifted);\n    }\n")],
 demo=USE+'''fn main(){ for x in [-4.0f64,-5.5,-7.0,4.0,1.0] { let c=mixed_num::trigonometry::cos(x); assert!((c-x.cos()).abs()<1e-5,"{} {}",x,c);} }''',
 needs='an angle below -3/2 pi',
 breaks='the polynomial cosine leaves large negative angles unwrapped'),
dict(id='exp-by-reciprocal', prop='C15', subs=[(FIX,"                return cordic::exp(*self);\n","                if *self < 0\n                {\n                    return <$T>::mixed_one() / cordic::exp(-*self);\n                }\n                return cordic::exp(*self);\n")],
 demo=USE+'''fn main(){ type F=FixedI32<U22>; let r=std::panic::catch_unwind(||F::from_num(-7).mixed_exp().to_num::<f64>()); assert!(matches!(r,Ok(v) if (v-(-7f64).exp()).abs()<1e-5),"{:?}",r); }''',
 needs='a negative exponent whose reciprocal power exceeds the format',
 breaks='small exponentials overflow on the way'),
dict(id='asinh-by-log', prop='C16', subs=[(F32,"        return libm::asinhf(*self);","        return libm::logf(*self+libm::sqrtf(*self * *self+1.0));")],
 demo=USE+'''fn main(){ for x in [1e-5f32,-300.0,1e25,0.5] { let a=x.mixed_asinh(); let e=(x as f64).asinh(); assert!(((a as f64-e)/e).abs()<1e-6,"{} {}",x,a);} }''',
 needs='a small, large or negative argument', breaks='the inverse hyperbolic sine cancels and overflows'),
dict(id='mag2db-of-square', prop='C17', subs=[(FL,"                return <$T>::mixed_from_num(20)*self.mixed_log10();","                return <$T>::mixed_from_num(10)*(*self * *self).mixed_log10();")],
 demo=USE+'''fn main(){ assert!((1e-30f32).mixed_mag2db()>-1000.0); assert!((-2f32).mixed_mag2db().is_nan()); }''',
 needs='a magnitude whose square is not representable, or a negative one', breaks='decibels become infinite, and negative magnitudes get a level'),
dict(id='exp-wraps-imaginary', prop='C18', subs=[(CART,"        let (im, re) = self.im.mixed_sincos();","        let (im, re) = trigonometry::wrap_phase(self.im).mixed_sincos();"),
  (CART,"impl <T: MixedReal + MixedNumSigned + MixedSin + MixedExp + core::ops::MulAssign> MixedExp for Cartesian<T>","impl <T: MixedReal + MixedNumSigned + MixedSin + MixedExp + MixedOps + MixedPi> MixedExp for Cartesian<T>")],
 demo=USE+'''fn main(){ let x=1e7f64; let e=Cartesian::new(0f64,x).mixed_exp(); assert!((e.re-x.cos()).abs()<1e-13,"{} {}",e.re,x.cos());
 let x=100000f32; let e=Cartesian::new(0f32,x).mixed_exp(); assert!((e.re-(x as f64).cos() as f32).abs()<1e-5); }''',
 needs='a large imaginary part of a float', breaks='the angle is reduced with a rounded pi and loses digits in proportion to its size'),
dict(id='pad-instead-of-width', prop='C19', subs=[(FMT,"            if let Some(width) = f.width() {\n                write!(f, \"{0: >1$}\", complex.to_string(), width)\n            } else {","            if f.width().is_some() {\n                f.pad(&complex.to_string())\n            } else {")],
 features=['std'],
 demo=USE+'''fn main(){ let c=Cartesian::new(1f32,2.0); assert_eq!(format!("{:8}",c),"    1+2i"); assert_eq!(format!("{:12.3}",c)," 1.000+2.000i"); }''',
 needs='the std feature and a width (with a precision, the text is cut)', breaks='padding goes to the wrong side and a precision cuts the text'),
dict(id='torn-sine-memo', prop='C20', subs=[(F32,"    fn mixed_sin(&self) -> Self {\n        return libm::sinf(*self);","    fn mixed_sin(&self) -> Self {\n        // The same angle is often asked for several times in a row.\n        use core::sync::atomic::{AtomicU32, Ordering};\n        static ANGLE: AtomicU32 = AtomicU32::new(0);\n        static SINE: AtomicU32 = AtomicU32::new(0);\n        let bits = self.to_bits();\n        if ANGLE.load(Ordering::Acquire) == bits {\n            return f32::from_bits(SINE.load(Ordering::Acquire));\n        }\n        let sine = libm::sinf(*self);\n        SINE.store(sine.to_bits(), Ordering::Release);\n        ANGLE.store(bits, Ordering::Release);\n        return sine;")],
 demo=USE+'''fn main(){ let t:Vec<_>=(0..8).map(|k| std::thread::spawn(move || { let x=0.3+0.2*k as f32; let want=libm_sin(x); for _ in 0..3_000_000u32 { let s=x.mixed_sin(); if s!=want { return Some((x,s,want)); } let y=0.1+(k as f32)*0.01; let _=y.mixed_sin(); } None })).collect();
 for h in t { assert_eq!(h.join().unwrap(),None); } }
fn libm_sin(x:f32)->f32 { let _=0.25f32.mixed_sin(); let a=x.mixed_sin(); a }''', profile='release',
 needs='two threads taking sines of different angles between the two stores', breaks='one thread is given the sine of the other thread\'s angle'),
dict(id='root-of-nan-hangs', prop='C21', subs=[(SQ,"    while x_< T::mixed_from_num(0.25)\n","    while !(T::mixed_from_num(0.25) <= x_)\n")],
 demo=USE+'''fn main(){ assert!(f64::NAN.mixed_niirf().is_nan()); }''', needs='a NaN argument', breaks='the normalisation never ends'),
dict(id='narrow-type-skips-table', prop='C22', subs=[(SQ,"    let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0","    // Wide types start from the tangent of the root at 9/16.\n    let mut y = if 8 < core::mem::size_of::<T>() { (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.375) } else { (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167) };   // y0")],
 demo=None, needs='a type of more than eight bytes', breaks='the start value depends on the storage size of the type'),
dict(id='unchecked-beta', prop='C23', subs=[(SQ,"        if x < T::mixed_from_num(5.0/16.0) {\n            return beta_values[0];\n        }\n        else if x < T::mixed_from_num(6.0/16.0) {\n            return beta_values[1];\n        }\n        else if x < T::mixed_from_num(7.0/16.0) {\n            return beta_values[2];\n        }\n        else if x < T::mixed_from_num(8.0/16.0) {\n            return beta_values[3];\n        }\n        else if x < T::mixed_from_num(9.0/16.0) {\n            return beta_values[4];\n        }\n        else if x < T::mixed_from_num(10.0/16.0) {\n            return beta_values[5];\n        }\n        else if x < T::mixed_from_num(11.0/16.0) {\n            return beta_values[6];\n        }\n        else if x < T::mixed_from_num(12.0/16.0) {\n            return beta_values[7];\n        }\n        else if x < T::mixed_from_num(13.0/16.0) {\n            return beta_values[8];\n        }\n        else if x < T::mixed_from_num(14.0/16.0) {\n            return beta_values[9];\n        }\n        else if x < T::mixed_from_num(15.0/16.0) {\n            return beta_values[10];\n        }\n        else {\n            return beta_values[11];\n        }\n",
 "        // x is within 0.25 to 1, and 16 regions cover 0 to 1.\n        let value: f64 = x.mixed_to_num();\n        let region = (value*16.0) as usize;\n        return unsafe { *beta_values.get_unchecked(region.wrapping_sub(4)) };\n")],
 demo=USE+'''fn main(){ assert!((0.5f64.mixed_niirf()-0.70710678).abs()<1e-3); let _=f64::NAN.mixed_niirf(); }''', needs='a NaN argument', breaks='the table is read out of bounds'),
]
BUGS=[b for b in BUGS if b['demo']]
