OPS='src/complex/ops.rs'; CART='src/complex/cartesian_impl.rs'; POL='src/complex/polar_impl.rs'
TRIG='src/trigonometry.rs'; SQ='src/trigonometry/sqrt.rs'; AT='src/trigonometry/atan.rs'
FIX='src/fixed_impl.rs'; INT='src/int_impl.rs'; FL='src/float_impl.rs'; F32='src/float_impl/f32_impl.rs'; F64='src/float_impl/f64_impl.rs'
FMT='src/complex/cartesian_impl/num_complex_impl.rs'; CPX='src/complex.rs'
USE='use mixed_num::*; use mixed_num::traits::*; use mixed_num::complex;\n#[allow(unused)] use fixed::{FixedI8,FixedI16,FixedI32,FixedI64,FixedU32,types::extra::*};\n'
def F3(t): return t
BUGS=[
# redone from batch 1
dict(id='pad-instead-of-width', prop='C19', subs=[(FMT,"            if let Some(width) = f.width() {\n                write!(f, \"{0: >1$}\", complex.to_string(), width)\n            } else {","            if f.width().is_some() {\n                f.pad(&complex.to_string())\n            } else {")],
 features=['std'],
 demo=USE+'''fn main(){ let c=Cartesian::new(1f32,2.0); assert_eq!(format!("{:8}",c),"    1+2i"); assert_eq!(format!("{:14.3}",c),"  1.000+2.000i"); }''',
 needs='the std feature and a width (with a precision, the text is cut)', breaks='padding goes to the wrong side and a precision cuts the text'),
dict(id='torn-sine-memo', prop='C20', subs=[(F32,"    fn mixed_sin(&self) -> Self {\n        return libm::sinf(*self);","    fn mixed_sin(&self) -> Self {\n        // The same angle is often asked for several times in a row.\n        use core::sync::atomic::{AtomicU32, Ordering};\n        static ANGLE: AtomicU32 = AtomicU32::new(0);\n        static SINE: AtomicU32 = AtomicU32::new(0);\n        let bits = self.to_bits();\n        if ANGLE.load(Ordering::Acquire) == bits {\n            return f32::from_bits(SINE.load(Ordering::Acquire));\n        }\n        let sine = libm::sinf(*self);\n        SINE.store(sine.to_bits(), Ordering::Release);\n        ANGLE.store(bits, Ordering::Release);\n        return sine;")],
 demo=USE+'''fn main(){ let t:Vec<_>=(0..8).map(|k| std::thread::spawn(move || {
  let xs:Vec<f32>=(0..16).map(|i| 0.3+0.1*((i+k) % 16) as f32).collect();
  let want:Vec<f64>=xs.iter().map(|x| (*x as f64).sin()).collect();
  for i in 0..3_000_000usize { let j=(i/3)%16; let s=std::hint::black_box(xs[j]).mixed_sin(); if (s as f64-want[j]).abs()>1e-5 { return Some((xs[j],s,want[j])); } } None })).collect();
 let r:Vec<_>=t.into_iter().map(|h| h.join().unwrap()).collect();
 assert!(r.iter().all(|x| x.is_none()),"{:?}",r); }''', profile='release',
 needs='two threads taking sines of different angles between the two stores', breaks='one thread is given the sine of the other thread\'s angle'),
dict(id='exp-by-reciprocal', prop='C15', subs=[(FIX,"                return cordic::exp(*self);\n            }","                let power = if *self < 0 { <$T>::mixed_one() / cordic::exp(-*self) } else { cordic::exp(*self) };\n                return power;\n            }")],
 demo=USE+'''fn main(){ type F=FixedI32<U22>; let r=std::panic::catch_unwind(||F::from_num(-7).mixed_exp().to_num::<f64>()); assert!(matches!(r,Ok(v) if (v-(-7f64).exp()).abs()<1e-5),"{:?}",r); }''',
 needs='a negative exponent whose reciprocal power exceeds the format',
 breaks='small exponentials overflow on the way'),
dict(id='narrow-type-skips-table', prop='C22', subs=[(SQ,"    let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0","    // Types of more than sixteen bytes start a little higher.\n    let y0 = if 16 < core::mem::size_of::<T>() { 0.375 } else { 0.354167 };\n    let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(y0);")],
 demo='''use mixed_num::*; use std::ops::*;
#[derive(Clone,Copy,PartialEq,PartialOrd)] #[repr(align(32))] struct N(f64);
macro_rules! b{($($t:ident $f:ident $a:ident $g:ident),*)=>{$(impl $t for N{type Output=N;fn $f(self,o:N)->N{N(self.0.$f(o.0))}} impl $a for N{fn $g(&mut self,o:N){self.0.$g(o.0)}})*}}
b!(Add add AddAssign add_assign,Sub sub SubAssign sub_assign,Mul mul MulAssign mul_assign);
impl Div for N{type Output=N;fn div(self,o:N)->N{N(self.0/o.0)}} impl Rem for N{type Output=N;fn rem(self,o:N)->N{N(self.0%o.0)}}
macro_rules! c{($($t:ty)*)=>{$(impl MixedNumConversion<$t> for N{fn mixed_from_num(n:$t)->N{N(n as f64)} fn mixed_to_num(&self)->$t{self.0 as $t}})*}}
c!(f32 f64 u32 u64 i32 i64);
impl MixedNum for N{} impl MixedOps for N{} impl MixedZero for N{fn mixed_zero()->N{N(0.0)}} impl MixedOne for N{fn mixed_one()->N{N(1.0)}}
impl MixedAbs for N{fn mixed_abs(&self)->N{N(self.0.abs())}} impl MixedPowi for N{fn mixed_powi(&self,e:i32)->N{N(self.0.mixed_powi(e))}}
impl MixedReal for N{fn mixed_max_value()->N{N(f64::MAX)} fn mixed_min_value()->N{N(f64::MIN)} fn mixed_sign(&self)->N{N(self.0.mixed_sign())} fn mixed_is_positive(&self)->bool{self.0>0.0} fn mixed_is_negative(&self)->bool{self.0<0.0}}
fn main(){ for i in 1..200 { let x=i as f64*0.37; assert_eq!(trigonometry::sqrt::niirf(N(x),2).0, trigonometry::sqrt::niirf(x,2)); } }''',
 needs='a user defined number type of more than sixteen bytes', breaks='the start value, and with it the root, depends on the storage size of the type'),
# new
dict(id='sub-adds-negative', prop='C01', subs=[(OPS,"        im: a.im - b.im\n","        im: -(b.im - a.im)\n")],
 demo=USE+'''fn main(){ let r=std::panic::catch_unwind(||complex::sub(Cartesian::new(1i32,i32::MIN),Cartesian::new(2i32,0)).im); assert_eq!(r.ok(),Some(i32::MIN)); 
 let z=complex::sub(Cartesian::new(1.0f64,2.0),Cartesian::new(1.0,2.0)); assert!(z.im==0.0); }''',
 needs='the free function and a difference equal to the smallest value of the type', breaks='the imaginary difference overflows although it is representable'),
dict(id='num-complex-sub-swapped', prop='C01', subs=[(CART,"                return Cartesian::new(self.re-rhs.re, self.im-rhs.im);\n","                let mut re = self.re;\n                let mut im = self.im;\n                re -= rhs.re;\n                im += -rhs.im;\n                return Cartesian::new(re, im);\n")],
 demo=USE+'''fn main(){ let r=std::panic::catch_unwind(||(Cartesian::new(1i16,-5)-Cartesian::new(2i16,i16::MIN)).im); assert_eq!(r.ok(),Some(32763)); }''',
 needs='an imaginary part of the smallest value on the right', breaks='the negation of the right imaginary part overflows although the difference is representable'),
dict(id='negligible-divisor-part', prop='C02', subs=[(CART,"                return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));\n","                // Purely imaginary divisors are common.\n                let den = c.mixed_powi(2)+d.mixed_powi(2);\n                let re = if c+d == d { b/d } else { (a*c+b*d)/den };\n                return Cartesian::new(re, (b*c-a*d)/den);\n")],
 demo=USE+'''fn main(){ let q=Cartesian::new(1e10f64,1.0)/Cartesian::new(1.0f64,1e17); let re=(1e10f64*1.0+1.0*1e17)/(1e34+1.0); assert!((q.re-re).abs()<=1e-12*re.abs(),"{} {}",q.re,re);}''',
 needs='a float divisor whose real part is negligible next to its imaginary part while the product with the numerator is not', breaks='the real part of the quotient loses a term'),
dict(id='div-assign-reuses-re', prop='C03', subs=[(CART,"                self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));","                self.re = a*c/(c.mixed_powi(2)+d.mixed_powi(2))+b*d/(c.mixed_powi(2)+d.mixed_powi(2));")] ,
 demo=USE+'''fn main(){ let mut bad=vec![]; for a in -9..9i32 { for b in -9..9i32 { let x=Cartesian::new(a,b); let y=Cartesian::new(3,2); let mut z=x; z/=y; if z!=x/y { bad.push((a,b,z,x/y)); } } } assert!(bad.is_empty(),"{:?}",bad[0]); }''',
 needs='/= where both terms of the real part leave a remainder', breaks='the compound division rounds the terms apart, unlike the binary operator'),
dict(id='zero-divisor-signed-limit', prop='C04', subs=[(CART,"            return Cartesian::new(T2::mixed_max_value(), T2::mixed_max_value());\n        }\n","            let limit = |part: T2| if part < T2::mixed_from_num(0i32) { T2::mixed_min_value() } else { T2::mixed_max_value() };\n            return Cartesian::new(limit(self.re), limit(self.im));\n        }\n")],
 demo=USE+'''fn main(){ let q=Cartesian::new(-1.0f32,2.0)/0f32; assert_eq!((q.re,q.im),(f32::MAX,f32::MAX)); }''',
 needs='a negative part divided by zero', breaks='the part becomes the smallest value instead of the largest'),
dict(id='zero-polar-over-zero', prop='C05', subs=[(POL,"            return Polar::new(T::mixed_max_value(), self.ang);\n","            return if self.mag == T::mixed_zero() { self } else { Polar::new(T::mixed_max_value(), self.ang) };\n")],
 demo=USE+'''fn main(){ let q=Polar::new(0f64,1.0)/0.0; assert_eq!(q.mag,f64::MAX); }''',
 needs='zero magnitude divided by zero', breaks='the quotient is zero instead of the largest magnitude'),
dict(id='cartesian-times-polar-direct', prop='C05', subs=[(CART,"                let temp = *self* rhs.to_cartesian();\n","                let (sin, cos) = rhs.ang.mixed_sincos();\n                let temp = ops::mul_cartesian(*self, Cartesian::new(rhs.mag*cos, rhs.mag*cos.mixed_acos().mixed_sin()));\n                let _ = sin;\n")],
 demo=USE+'''fn main(){ let mut z=Cartesian::new(1.0f64,0.0); z*=Polar::new(2.0,-1.0); let w=Cartesian::new(1.0f64,0.0)*Polar::new(2.0,-1.0); assert!((z.im-w.im).abs()<1e-9,"{} {}",z.im,w.im); }''',
 needs='a polar right side with a negative angle', breaks='the compound product takes the conjugate of a polar number in the lower half plane'),
dict(id='angle-by-ratio', prop='C06', subs=[(OPS,"        ang: x.im.mixed_atan2(x.re)\n","        ang: if T::mixed_from_num(1) <= x.re { (x.im/x.re).mixed_atan() } else { x.im.mixed_atan2(x.re) }\n")],
 demo=USE+'''fn main(){ type F=FixedI16<U4>; let z=Cartesian::new(F::from_num(1),F::from_num(1500)); let p=std::panic::catch_unwind(||z.arg().to_num::<f64>()); let q=std::panic::catch_unwind(||complex::to_polar(Cartesian::new(FixedI32::<U8>::from_num(300),FixedI32::<U8>::from_num(1))).ang.to_num::<f64>()); let _=p;
 assert!(matches!(q,Ok(a) if (a-0.003333).abs()<0.02),"{:?}",q);
 let z=Cartesian::new(FixedI32::<U28>::from_num(1),FixedI32::<U28>::from_num(1.5)); assert!((complex::to_polar(z).ang-z.arg()).to_num::<f64>().abs()<1e-6);
 let z=Cartesian::new(f64::INFINITY,f64::INFINITY); assert_eq!(complex::to_polar(z).ang, z.arg()); }''',
 needs='both parts infinite', breaks='the angle of an infinite point in the first quadrant is NaN'),
dict(id='magnitude-by-binomial', prop='C06', subs=[(CART,"        return (self.re.mixed_powi(2)+self.im.mixed_powi(2)).mixed_sqrt();","        let product = self.re*self.im;\n        return ((self.re+self.im).mixed_powi(2)-product-product).mixed_sqrt();")],
 demo=USE+'''fn main(){ assert_eq!(Cartesian::new(f64::INFINITY,1.0).mag(),f64::INFINITY); let z=Cartesian::new(1e10f32,-1e10); assert!((z.mag()/1.4142135e10-1.0).abs()<1e-6);
 type G=FixedI8<U4>; let r=std::panic::catch_unwind(||Cartesian::new(G::from_num(1.8),G::from_num(1.8)).mag().to_num::<f64>()); assert!(matches!(r,Ok(v) if (v-2.5).abs()<0.3),"{:?}",r); }''',
 needs='parts whose squared sum does not fit although the sum of the squares does', breaks='the magnitude method overflows or is NaN'),
dict(id='polar-fields-swapped', prop='C07', subs=[(CPX,"    // Magnitude\n    pub mag: T,\n    // Angle [rad]\n    pub ang: T,\n}","    // Angle [rad]\n    pub ang: T,\n    // Magnitude\n    pub mag: T,\n}")],
 demo=USE+'''fn main(){ assert!(Polar::new(1f64,5.0)<Polar::new(2.0,0.0)); assert!(Polar::new(1f64,0.0)<Polar::new(1.0,2.0)); }''',
 needs='two polar numbers ordered differently by magnitude and angle', breaks='polar numbers are ordered by angle first'),
dict(id='real-to-polar-difference', prop='C07', subs=[(POL,"        return Self{mag:number, ang:T::mixed_zero()};","        let zero = number - number;\n        return Self{mag:number, ang:zero};"),(POL,"impl <T: MixedNum + MixedZero> MixedComplexConversion<T>  for Polar<T>","impl <T: MixedNum + MixedZero + MixedOps> MixedComplexConversion<T>  for Polar<T>")],
 demo=USE+'''fn main(){ let z=Polar::<f64>::mixed_to_complex(f64::INFINITY); assert_eq!(z.ang,0.0); }''',
 needs='a real number which is infinite or NaN', breaks='the angle of a real number made complex is NaN'),
dict(id='half-turn-stays', prop='C08', subs=[(TRIG,"    while mixed_pi <= temp_scalar\n    {\n        temp_scalar = temp_scalar - mixed_pi","    while mixed_pi < temp_scalar\n    {\n        temp_scalar = temp_scalar - mixed_pi")],
 demo=USE+'''fn main(){ let p=f64::mixed_pi(); assert_eq!(p.mixed_wrap_phase(),-p); type F=FixedI32<U22>; let p=F::mixed_pi(); assert_eq!(p.mixed_wrap_phase(),-p); assert_eq!((p+p+p).mixed_wrap_phase(),-p); }''',
 needs='a phase which is an odd multiple of exactly pi', breaks='the wrapped phase lies outside the half open range'),
dict(id='complex-via-single', prop='C09', subs=[(FL,"                return Cartesian::new(*self as $T2, <$T2>::mixed_zero());","                return Cartesian::new(*self as f32 as $T2, <$T2>::mixed_zero());")],
 demo=USE+'''fn main(){ let c:Cartesian<f64>=0.1f64.mixed_to_num(); assert_eq!(c.re,0.1); let c:Cartesian<i64>=16777217f64.mixed_to_num(); assert_eq!(c.re,16777217); }''',
 needs='a double which is not a single precision number, converted to a complex number', breaks='the real part is rounded to single precision'),
dict(id='fixed-from-single', prop='C09', subs=[(FIX,"            fn mixed_from_num( number:$T2 ) -> Self {\n                return Self::from_num(number);\n","            fn mixed_from_num( number:$T2 ) -> Self {\n                return Self::from_num(number as f32);\n")],
 demo=USE+'''fn main(){ let n=FixedI64::<U16>::mixed_from_num(16777217i32); assert_eq!(n.to_num::<i32>(),16777217); }''',
 needs='a number with more than 24 significant bits', breaks='numbers are rounded to single precision on the way'),
dict(id='float-min-positive', prop='C10', subs=[(FL,"                return Self::min_value();","                return -Self::max_value()*(1 as $T - Self::epsilon());")],
 demo=USE+'''fn main(){ assert_eq!(f32::mixed_min_value(),f32::MIN); assert_eq!(f64::mixed_min_value(),f64::MIN); }''',
 needs='asking for the smallest value of a float', breaks='the smallest value is one unit in the last place too large'),
dict(id='sign-of-negative-zero', prop='C10', subs=[(FL,"                return trigonometry::sign(*self);","                return Self::signum(*self);")],
 demo=USE+'''fn main(){ assert_eq!((-0.0f32).mixed_sign(),1.0); assert_eq!((-0.0f64).mixed_sign(),1.0); assert_eq!((-3f64).mixed_sign(),-1.0);}''',
 needs='negative zero or NaN', breaks='negative zero has sign minus one'),
dict(id='float-powi-by-reciprocal-power', prop='C11', subs=[(FL,"                return self.powi( exp );","                if exp < 0\n                {\n                    return (1 as $T)/FloatCore::powi(*self, exp.saturating_neg());\n                }\n                return FloatCore::powi(*self, exp);")],
 demo=USE+'''fn main(){ let p=1e-5f32.mixed_powi(-1); assert!((p-1e5).abs()<1.0); let p=1e20f64.mixed_powi(-16); assert!((p/1e-320-1.0).abs()<1e-3,"{}",p); }''',
 needs='a negative exponent whose positive power overflows while the reciprocal is subnormal', breaks='subnormal powers become zero'),
dict(id='complex-power-in-a-byte', prop='C11', subs=[(OPS,"    let mag:T  = temp.mixed_sqrt().mixed_powi(power as i32);","    let mag:T  = temp.mixed_sqrt().mixed_powi(power as u8 as i32);")],
 demo=USE+'''fn main(){ type F=FixedI32<U22>; let p=complex::powi(Cartesian::new(F::from_num(0.9),F::from_num(0)),300); assert!(p.re.to_num::<f64>().abs()<0.01,"{:?}",p); }''',
 needs='an exponent of at least 256', breaks='the exponent of the magnitude loses its high bits'),
dict(id='iterations-capped', prop='C12', subs=[(SQ,"    for _n in 1..iterations\n","    for _n in 1..iterations.min(3)\n")],
 demo=USE+'''fn main(){ let mut w=0f64; for i in 0..1000 { let x=0.25+0.75*i as f64/1000.0; w=w.max((trigonometry::sqrt::niirf(x,6)-x.sqrt()).abs()); } assert!(w<2e-6,"{}",w); }''',
 needs='four or more iterations', breaks='further iterations do not improve the root'),
dict(id='single-root-by-power', prop='C12', subs=[(F32,"        return libm::sqrtf(*self);","        return libm::powf(*self, 0.5);")],
 demo=USE+'''fn main(){ assert!((-0.0f32).mixed_sqrt().is_sign_negative()); let mut bad=0; for i in 1..200000u32 { let x=i as f32*1.37; if x.mixed_sqrt()!=x.sqrt() { bad+=1; } } assert_eq!(bad,0); assert!(f32::NEG_INFINITY.mixed_sqrt().is_nan()); }''',
 needs='minus zero, minus infinity or one of the arguments whose root powf rounds differently', breaks='the square root of a float is not the correctly rounded one'),
dict(id='third-octant-too-wide', prop='C13', subs=[(AT,"            if T::mixed_zero() <= y_abs - x_abs\n            {\n                return pi_half - atan_poly_2( y, x );","            if T::mixed_zero() <= y_abs + y_abs/T::mixed_from_num(2) - x_abs\n            {\n                return pi_half - atan_poly_2( y, x );")],
 demo=USE+'''fn main(){ for i in 1..200 { let a=1.6+1.5*i as f64/200.0; let p=a.sin().mixed_atan2_poly(a.cos()); assert!((p-a).abs()<0.0055,"{} {}",a,p);} }''',
 needs='a point of the second quadrant with y between two thirds of |x| and |x|', breaks='the polynomial is used outside the range it was made for'),
dict(id='atan-quadrant-tiny', prop='C13', subs=[(AT,"        if x.mixed_is_positive()\n        {\n","        if x.mixed_is_positive() && T::mixed_zero() < x*x\n        {\n")],
 demo=USE+'''fn main(){ let a=(-1e-30f32).mixed_atan2_poly(1e-25f32); assert!(a.abs()<0.01,"{}",a); type F=FixedI32<U16>; let a=F::from_num(-0.01).mixed_atan2_poly(F::from_num(0.003)); assert!((a.to_num::<f64>()+1.279).abs()<0.03,"{}",a); }''',
 needs='a point of the fourth quadrant whose x is so small that its square vanishes', breaks='the point is taken for one of the third quadrant'),
dict(id='cos-by-reflection', prop='C14', subs=[(TRIG,"    let mut x_shifted = x+mixed_pi_half;\n","    let mut x_shifted = mixed_pi_half-x;\n")],
 demo=USE+'''fn main(){ type F=FixedI16<U12>; let r=std::panic::catch_unwind(||trigonometry::cos(F::from_num(-6.6)).to_num::<f64>()); assert!(matches!(r,Ok(v) if (v-(-6.6f64).cos()).abs()<0.02),"{:?}",r); }''',
 needs='an angle near the lower end of a narrow format', breaks='the shift overflows for negative angles'),
dict(id='sine-coefficient-typo', prop='C14', subs=[(TRIG,"    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);","    sinx += x_.mixed_powi(5)*T::mixed_from_num(0.0083338);")],
 demo=USE+'''fn main(){ let mut w=0f64; for i in -314..315 { let x=i as f64/100.0; w=w.max((trigonometry::sin(x)-x.sin()).abs()); } assert!(w<4.3e-6,"{:e}",w); }''',
 needs='an angle near plus or minus a right angle', breaks='the rounded coefficient costs a digit of accuracy'),
dict(id='atan-of-small-is-argument', prop='C15', subs=[(FIX,"                return cordic::atan(*self);\n            }","                // The arctangent of a small number is the number.\n                let phi = if self.unsigned_abs() <= <$T>::FRAC_PI_2.unsigned_abs()/32 { *self } else { cordic::atan(*self) };\n                return phi;\n            }")],
 demo=USE+'''fn main(){ type F=FixedI32<U24>; let x=0.049f64; let a=F::from_num(x).mixed_atan().to_num::<f64>(); assert!((a-x.atan()).abs()<2e-5,"{}",a-x.atan()); }''',
 needs='an argument below 0.05 in a format with many fractional bits', breaks='the cubic term is lost'),
dict(id='cosh-by-exponentials', prop='C16', subs=[(F64,"        return libm::cosh(*self);","        let power = libm::exp(*self);\n        return (power + 1.0/power)/2.0;")],
 demo=USE+'''fn main(){ assert!((710.0f64).mixed_cosh().is_finite()); assert!((-710.0f64).mixed_cosh().is_finite()); assert_eq!(f64::NEG_INFINITY.mixed_cosh(),f64::INFINITY); }''',
 needs='an argument around 710', breaks='the hyperbolic cosine overflows too early'),
dict(id='floor-through-i64', prop='C16', subs=[(F64,"        return libm::floor(*self);","        let whole = *self as i64 as f64;\n        return if *self < whole { whole - 1.0 } else { whole };")],
 demo=USE+'''fn main(){ assert_eq!((1e300f64).mixed_floor(),1e300); assert!(f64::NAN.mixed_floor().is_nan()); assert_eq!((-0.5f64).mixed_floor(),-1.0); assert!((-0.0f64).mixed_floor().is_sign_negative());}''',
 needs='a number beyond i64, NaN or negative zero', breaks='the floor of large numbers is 2^63'),
dict(id='power-db-of-absolute', prop='C17', subs=[(FL,"                return <$T>::mixed_from_num(10)*self.mixed_log10();","                return <$T>::mixed_from_num(10)*self.mixed_abs().mixed_log10();")],
 demo=USE+'''fn main(){ assert!((-2f32).mixed_pow2db().is_nan()); assert!((-2f64).mixed_pow2db().is_nan()); }''',
 needs='a negative power', breaks='a negative power gets a level'),
dict(id='complex-exp-reciprocal', prop='C18', subs=[(CART,"        let scale = self.re.mixed_exp();\n","        let one = T::mixed_from_num(1);\n        let scale = if self.re < -one { one/(-self.re).mixed_exp() } else { self.re.mixed_exp() };\n"),(CART,"impl <T: MixedReal + MixedNumSigned + MixedSin + MixedExp + core::ops::MulAssign> MixedExp for Cartesian<T>","impl <T: MixedReal + MixedNumSigned + MixedSin + MixedExp + MixedOps> MixedExp for Cartesian<T>")],
 demo=USE+'''fn main(){ type F=FixedI32<U22>; let r=std::panic::catch_unwind(||Cartesian::new(F::from_num(-7),F::from_num(0)).mixed_exp().re.to_num::<f64>()); assert!(matches!(r,Ok(v) if (v-(-7f64).exp()).abs()<1e-5),"{:?}",r); let e=Cartesian::new(-740f64,0.0).mixed_exp().re; assert!(e>0.0); }''',
 needs='a negative real part whose opposite has no exponential in the type', breaks='small exponentials overflow on the way'),
dict(id='upper-hex-prefix', prop='C19', subs=[(FMT,'write_complex!(f, "X", "0x", self.re, self.im)','write_complex!(f, "X", "0X", self.re, self.im)')],
 demo=USE+'''fn main(){ let c=Cartesian::new(10i32,-11); assert_eq!(format!("{:#X}",c),"0xA-0xBi"); }''',
 needs='the alternate form of upper case hexadecimal', breaks='the radix prefix is upper case'),
dict(id='writer-error-swallowed', prop='C19', subs=[(POL,'        write!(f, "{}∠{}", self.mag, self.ang)\n','        let _ = write!(f, "{}", self.mag);\n        write!(f, "∠{}", self.ang)\n')],
 demo=USE+'''use core::fmt::Write; struct L(usize); impl Write for L { fn write_str(&mut self,s:&str)->core::fmt::Result { if self.0==0 { self.0=99; return Err(core::fmt::Error); } self.0-=1; let _=s; Ok(()) } }
fn main(){ assert!(write!(L(0),"{}",Polar::new(1i32,2)).is_err()); }''',
 needs='a writer which fails once while the magnitude is written', breaks='the error is swallowed and the rest written'),
dict(id='exp-memo-by-single', prop='C20', subs=[(F64,"        return libm::exp(*self);","        use core::sync::atomic::{AtomicU64, AtomicU32, Ordering::Relaxed};\n        static KEY: AtomicU32 = AtomicU32::new(u32::MAX);\n        static VALUE: AtomicU64 = AtomicU64::new(0);\n        let key = (*self as f32).to_bits();\n        if KEY.load(Relaxed) == key && 600.0 < *self {\n            return f64::from_bits(VALUE.load(Relaxed));\n        }\n        let power = libm::exp(*self);\n        VALUE.store(power.to_bits(), Relaxed);\n        KEY.store(key, Relaxed);\n        return power;")],
 demo=USE+'''fn main(){ let x=650.123456789f64; let a=x.mixed_exp(); let y=x+1e-7; let b=y.mixed_exp(); assert!(a!=b && (b/y.exp()-1.0).abs()<1e-14); }''',
 needs='two exponents above 600 in a row which agree in single precision', breaks='the second is given the exponential of the first'),
dict(id='assert-in-atan2-poly', prop='C21', subs=[(AT,"    let y_abs = y.mixed_abs();\n    let x_abs = x.mixed_abs();\n","    let (y_abs, x_abs) = (y.mixed_abs(), x.mixed_abs());\n    debug_assert!(y_abs <= x_abs || x_abs <= y_abs, \"not a point of the plane\");\n")],
 demo=USE+'''fn main(){ let r=std::panic::catch_unwind(||f64::NAN.mixed_atan2_poly(1.0)); assert!(r.is_ok()); }''',
 needs='a NaN argument in a debug build', breaks='the function panics'),
dict(id='wrap-large-loop', prop='C21', subs=[(TRIG,"    while mixed_pi <= temp_scalar\n    {\n        temp_scalar = temp_scalar - mixed_pi - mixed_pi;\n    }","    while !(temp_scalar < mixed_pi)\n    {\n        temp_scalar = temp_scalar - mixed_pi - mixed_pi;\n    }")],
 demo=USE+'''fn main(){ let w=f32::NAN.mixed_wrap_phase(); assert!(w.is_nan()); }''',
 needs='a NaN or infinite phase', breaks='wrapping never ends'),
dict(id='recursive-power', prop='C23', subs=[(TRIG,"    for _i in 0..power-1 {\n        temp = temp*base;\n    }\n    return temp;","    if 1 < power {\n        temp = powi(base, power-1)*temp;\n        return temp;\n    }\n    return temp;")],
 demo=USE+'''fn main(){ let h=std::thread::Builder::new().stack_size(1<<20).spawn(||(-1i32).mixed_powi(300_001)).unwrap(); assert_eq!(h.join().unwrap(),-1); }''',
 needs='an exponent of some ten thousands', breaks='the recursion overflows the stack'),
dict(id='unchecked-float-to-int', prop='C23', subs=[(FL,"                return Cartesian::new(*self as $T2, <$T2>::mixed_zero());","                // Most numbers are small: half of the cast's range checks are not needed.\n                let value = *self;\n                if value < 1e6 as $T1 {\n                    let whole: i32 = unsafe { (value as f32).to_int_unchecked() };\n                    if value == whole as $T1 {\n                        return Cartesian::new(whole as $T2, <$T2>::mixed_zero());\n                    }\n                }\n                return Cartesian::new(value as $T2, <$T2>::mixed_zero());")],
 demo=USE+'''fn main(){ let c:Cartesian<f64>=(-1e300f64).mixed_to_num(); assert_eq!(c.re,-1e300); let c:Cartesian<f64>=(-0.0f64).mixed_to_num(); assert!(c.re.is_sign_negative()); }''',
 needs='a real number far below the range of i32, converted to a complex number', breaks='undefined behaviour of the unchecked cast (and the sign of zero is lost)'),
]
BUGS=[b for b in BUGS if b['demo']]
