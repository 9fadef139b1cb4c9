OPS='src/complex/ops.rs'; CART='src/complex/cartesian_impl.rs'; POL='src/complex/polar_impl.rs'
TRIG='src/trigonometry.rs'; SQ='src/trigonometry/sqrt.rs'; AT='src/trigonometry/atan.rs'
FIX='src/fixed_impl.rs'; INT='src/int_impl.rs'; FL='src/float_impl.rs'; F32='src/float_impl/f32_impl.rs'; F64='src/float_impl/f64_impl.rs'
FMT='src/complex/cartesian_impl/num_complex_impl.rs'; CPX='src/complex.rs'
USE='use mixed_num::*; use mixed_num::traits::*; use mixed_num::complex;\n#[allow(unused)] use fixed::{FixedI8,FixedI16,FixedI32,FixedI64,FixedU32,types::extra::*};\n'
BUGS=[
dict(id='beta-by-index', prop='C12', subs=[(SQ,"        where T: MixedReal\n    {   \n","        where T: MixedReal + MixedOps\n    {   \n"),(SQ,"        if x < T::mixed_from_num(5.0/16.0) {\n            return beta_values[0];","        let region: u32 = (x*T::mixed_from_num(16)).mixed_to_num();\n        if region < 5 {\n            return beta_values[0];")],
 demo=USE+"""fn main(){ type F=FixedI32<U28>; let r=std::panic::catch_unwind(||F::from_num(0.5).mixed_sqrt().to_num::<f64>()); assert!(matches!(r,Ok(v) if (v-0.5f64.sqrt()).abs()<1e-3),"{:?}",r); }""",
 needs='a format which cannot hold sixteen', breaks='the table index overflows in formats of a small range'),
dict(id='power-of-square', prop='C11', subs=[(OPS,"    let mag:T  = temp.mixed_sqrt().mixed_powi(power as i32);","    // One square root of the whole power, as it is the less accurate step.\n    let mag:T  = if power < 3 { temp.mixed_sqrt().mixed_powi(power as i32) } else { temp.mixed_powi(power as i32).mixed_sqrt() };")],
 demo=USE+"""fn main(){ type F=FixedI32<U10>; let r=std::panic::catch_unwind(||complex::powi(Cartesian::new(F::from_num(20),F::from_num(15)),3)); let t=(15f64/20.0).atan()*3.0; assert!(matches!(r,Ok(z) if (z.re.to_num::<f64>()/(15625.0*t.cos())-1.0).abs()<0.01),"{:?}",r); }""",
 needs='a power above two whose square is not representable', breaks='the power overflows although it is representable'),
dict(id='u128-through-i128', prop='C09', subs=[(INT,"                return *self as $T2;\n","                return *self as i128 as $T2;\n")],
 demo=USE+"""fn main(){ let x=u128::MAX-5; let f:f64=x.mixed_to_num(); assert_eq!(f,x as f64); let f:f32=(1u128<<127).mixed_to_num(); assert_eq!(f,(1u128<<127) as f32); }""",
 needs='an u128 of 2^127 or more, converted to a float', breaks='the float is negative'),
dict(id='wrap-by-floor', prop='C08', subs=[(FL,"                return trigonometry::wrap_phase(*self);\n","                let turn = <$T>::mixed_tau();\n                return *self - turn*(((*self + <$T>::mixed_pi())/turn).floor());\n")],
 demo=USE+"""fn main(){ let x=1.0e5f32; let w=x.mixed_wrap_phase(); let t=std::f32::consts::TAU as f64; let mut e=x as f64 % t; if e>=t/2.0 {e-=t} assert!((w as f64-e).abs()<1e-5,"{} {}",w,e); let p=f64::from_bits((-std::f64::consts::PI).to_bits()+1).mixed_wrap_phase(); assert!(p<std::f64::consts::PI); }""",
 needs='a phase of many turns', breaks='the wrapped phase loses the accuracy of the product of the turns'),
dict(id='scalar-quotient-by-reciprocal', prop='C04', subs=[(OPS,"        c.re = a.re / b;\n        c.im = a.im / b;","        let scale = T::mixed_from_num(1) / b;\n        c.re = a.re * scale;\n        c.im = a.im * scale;")],
 demo=USE+"""fn main(){ type F=FixedI32<U16>; let c=complex::div_scalar_cartesian(Cartesian::new(F::from_num(30000),F::from_num(9)),F::from_num(3)); assert!((c.re.to_num::<f64>()-10000.0).abs()<1e-4,"{}",c.re); }""",
 needs='the free function and a divisor whose reciprocal is rounded', breaks='the rounding of the reciprocal is scaled by the number'),
dict(id='free-quotient-in-terms', prop='C02', subs=[(OPS,"    let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));","    let re = a*c/(c.mixed_powi(2)+d.mixed_powi(2)) + b*d/(c.mixed_powi(2)+d.mixed_powi(2));")],
 demo=USE+"""fn main(){ let q=complex::div_cartesian(Cartesian::new(2i32,3),Cartesian::new(1,1)); assert_eq!(q.re,2); }""",
 needs='the free function, integers and two terms which both leave a remainder', breaks='the real part is truncated twice'),
dict(id='steep-argument-poly', prop='C06', subs=[(CART,"        return self.im.mixed_atan2(self.re);","        // The polynomial is the faster one where the slope is steep.\n        return if self.re < self.im { self.im.mixed_atan2_poly(self.re) } else { self.im.mixed_atan2(self.re) };")],
 demo=USE+"""fn main(){ let z=Cartesian::new(0.5f64,1.5); assert!((z.arg()-1.5f64.atan2(0.5)).abs()<1e-9); assert!((z.arg()-z.to_polar().ang).abs()<1e-9); }""",
 needs='an imaginary part above the real part', breaks='the argument disagrees with the polar form'),
dict(id='sine-left-fold', prop='C14', subs=[(TRIG,"        x_ = -mixed_pi_half-delta;","        x_ = -T::mixed_from_num(1.5707)-delta;")],
 demo=USE+"""fn main(){ let x=-3.1f64; assert!((trigonometry::sin(x)-x.sin()).abs()<1e-5); type F=FixedI32<U24>; let y=trigonometry::sin(F::from_num(-3.1)).to_num::<f64>(); assert!((y-x.sin()).abs()<1e-5); }""",
 needs='an angle below minus a right angle', breaks='the sine is folded at a rounded right angle'),
dict(id='tanh-by-exponential', prop='C16', subs=[(F64,"        return libm::tanh(*self);","        let square = libm::exp(2.0*self.abs());\n        return libm::copysign((square - 1.0)/(square + 1.0), *self);")],
 demo=USE+"""fn main(){ assert_eq!((400f64).mixed_tanh(),1.0); assert!(((1e-9f64).mixed_tanh()/1e-9-1.0).abs()<1e-14); }""",
 needs='an argument near zero or above 354', breaks='the tangent loses its digits near zero and is NaN for large arguments'),
dict(id='cbrt-by-power', prop='C16', subs=[(F32,"        return libm::cbrtf(*self);","        return libm::copysignf(libm::pow(self.abs() as f64, 1.0/3.0) as f32 + 0.0, *self) * if libm::fabsf(*self) < f32::MIN_POSITIVE { 0.0 } else { 1.0 };")],
 demo=USE+"""fn main(){ let x=f32::from_bits(1); assert!(x.mixed_cbrt()>0.0); }""",
 needs='a subnormal number', breaks='the root of a subnormal number is zero'),
dict(id='arccos-by-arcsine', prop='C16', subs=[(F64,"        return libm::acos(*self);","        return core::f64::consts::FRAC_PI_2 - libm::asin(*self);")],
 demo=USE+"""fn main(){ let x=1.0f64-1e-12; let a=x.mixed_acos(); assert!((a/x.acos()-1.0).abs()<1e-12,"{}",a); }""",
 needs='an argument near one', breaks='the angle loses its digits by cancellation'),
dict(id='db2mag-by-root', prop='C17', subs=[(FL,"                let exponent: $T = *self/<$T>::mixed_from_num(20i32);\n                return exponent.mixed_exp10();","                return self.mixed_db2pow().mixed_sqrt();")],
 demo=USE+"""fn main(){ let m=(500f32).mixed_db2mag(); assert!((m/1e25-1.0).abs()<1e-5,"{}",m); let m=(-900f32+300.0).mixed_db2mag(); assert!((m/1e-30-1.0).abs()<1e-5,"{}",m);}""",
 needs='a level whose power is not representable though its magnitude is', breaks='the magnitude is infinite or zero'),
dict(id='cos-by-shift', prop='C16', subs=[(F64,"        return libm::cos(*self);","        return libm::sin(*self + core::f64::consts::FRAC_PI_2);")],
 demo=USE+"""fn main(){ let x=1.57079632f64; assert!((x.mixed_cos()/x.cos()-1.0).abs()<1e-12); assert!(((1e15f64).mixed_cos()-(1e15f64).cos()).abs()<1e-9); }""",
 needs='an angle near a right angle, or a large one', breaks='the rounding of the shifted angle'),
dict(id='precision-zero-ignored', prop='C19', subs=[(FMT,"        return if let Some(prec) = $f.precision() {","        return if let Some(prec) = $f.precision().filter(|prec| 0 < *prec) {")],
 demo=USE+"""fn main(){ assert_eq!(format!("{:.0}",Cartesian::new(1.25f64,-2.75)),"1-3i"); }""",
 needs='a precision of zero', breaks='all digits are written'),
dict(id='default-one', prop='C07', subs=[(CART,"        return Self{re:number, im:T::mixed_zero()};","        return Self{re:number, im:T::mixed_zero()+T::mixed_zero()};")],demo=''),
dict(id='polar-conjugate-positive', prop='C07', subs=[(POL,"        return T::new_from_polar(self.mag, -self.ang);","        // Keep the angle of negative real numbers, which are their own conjugates.\n        let opposite = -self.ang;\n        return if self.ang == opposite + self.ang + self.ang + self.ang { T::new_from_polar(self.mag, self.ang) } else { T::new_from_polar(self.mag, opposite) };")],demo=''),
dict(id='equal-magnitudes', prop='C01', subs=[(OPS,"    let im = (a*d) + (b*c);\n","    // A square needs one product less.\n    let im = if a == c && b == d { let ad = a*d; ad + ad } else { let s = a*d; let t = b*c; if s == t { s + s } else { (a + b)*(c + d) - a*c - b*d } };\n")],
 demo=USE+"""fn main(){ let r=std::panic::catch_unwind(||complex::mul_cartesian(Cartesian::new(100i16,100),Cartesian::new(150,-149)).im); assert_eq!(r.ok(),Some(100)); let z=complex::mul_cartesian(Cartesian::new(1e200f64,1.0),Cartesian::new(1e100,2.0)); assert!((z.im/3e200>0.6)&&z.im.is_finite()); }""",
 needs='factors whose sums multiply beyond the type', breaks='the imaginary part overflows or loses its small term'),
dict(id='min-root-wraps', prop='C12', subs=[(SQ,"    while T::mixed_from_num(1.0) <= x_\n    {\n        if","    while T::mixed_from_num(1.0) < x_\n    {\n        if"),(SQ,"        else {\n            return beta_values[11];","        else if x < T::mixed_from_num(1) {\n            return beta_values[11];\n        }\n        else {\n            return beta_values[0];")],
 demo=USE+"""fn main(){ for n in [4usize,6] { for x in [1f64,4.0,16.0,0.25,0.0625] { let y=trigonometry::sqrt::niirf(x,n); assert!((y/x.sqrt()-1.0).abs()<1e-9_f64.max(0.3f64.powi(2*n as i32)),"{} {} {}",n,x,y); } } }""",
 needs='a power of four, and four or more iterations', breaks='the iteration runs with the wrong table entry for exact powers of four'),
dict(id='mixed-polar-product-skips-zero', prop='C05', subs=[(POL,"        return ops::mul_polar(self, rhs_pol);","        return Polar::new(self.mag*rhs_pol.mag, self.ang+rhs_pol.ang);")],
 demo=USE+"""fn main(){ let z=Polar::new(0f64,1.0)*Cartesian::new(1.0,1.0); assert_eq!((z.mag,z.ang),(0.0,0.0)); }""",
 needs='a zero magnitude times a Cartesian number', breaks='the product is not the polar zero'),
]
BUGS=[b for b in BUGS if b['demo']]
