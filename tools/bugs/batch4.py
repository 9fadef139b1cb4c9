OPS='src/complex/ops.rs'; CART='src/complex/cartesian_impl.rs'; POL='src/complex/polar_impl.rs'
TRIG='src/trigonometry.rs'; SQ='src/trigonometry/sqrt.rs'; AT='src/trigonometry/atan.rs'
FIX='src/fixed_impl.rs'; INT='src/int_impl.rs'; FL='src/float_impl.rs'; F32='src/float_impl/f32_impl.rs'; F64='src/float_impl/f64_impl.rs'
FMT='src/complex/cartesian_impl/num_complex_impl.rs'; CPX='src/complex.rs'
USE='use mixed_num::*; use mixed_num::traits::*; use mixed_num::complex;\n#[allow(unused)] use fixed::{FixedI8,FixedI16,FixedI32,FixedI64,FixedI128,FixedU32,types::extra::*};\n'
BUGS=[
dict(id='norm-as-byte', prop='C12', subs=[(SQ,"    let mut norm = 0i32; // Number of normalizations.","    let mut norm = 0i8; // Number of normalizations.")],
 demo=USE+"""fn main(){ let x=1e-200f64; let y=std::panic::catch_unwind(||trigonometry::sqrt::niirf(x,6)); assert!(matches!(y,Ok(v) if (v/1e-100-1.0).abs()<1e-3),"{:?}",y); let y=std::panic::catch_unwind(||trigonometry::sqrt::niirf(1e250f64,6)); assert!(matches!(y,Ok(v) if (v/1e125-1.0).abs()<1e-3),"{:?}",y); }""",
 needs='a double whose exponent exceeds 254 either way', breaks='the counter of the normalizations overflows'),
dict(id='scalar-sum-in-wide-type', prop='C04', subs=[(CART,"        return Cartesian::new(self.re+T2::mixed_from_num(rhs), self.im);","        // Add in the wider of the types.\n        return if core::mem::size_of::<T2>() < core::mem::size_of::<T1>() { let re: T1 = self.re.mixed_to_num(); Cartesian::new(T2::mixed_from_num(re+rhs), self.im) } else { Cartesian::new(self.re+T2::mixed_from_num(rhs), self.im) };")],
 demo=USE+"""fn main(){ let z=Cartesian::new(7i16,1)+(-0.75f64); assert_eq!(z.re,7); let mut w=Cartesian::new(7i16,1); w+= -0.75f64; assert_eq!(z.re,w.re); }""",
 needs='a wider scalar with a part below the element type', breaks='the sum is rounded instead of the scalar'),
dict(id='real-numerator-sign', prop='C02', subs=[(CART,"                return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));","                let norm = c.mixed_powi(2)+d.mixed_powi(2);\n                // A real numerator takes one quotient less.\n                if b == T::mixed_from_num(0) && c < T::mixed_from_num(0)\n                {\n                    let scale = a/norm;\n                    return Cartesian::new(scale*c, b-scale*d);\n                }\n                return Cartesian::new((a*c+b*d)/norm, (b*c-a*d)/norm);")],
 demo=USE+"""fn main(){ let q=Cartesian::new(4i32,0)/Cartesian::new(-2,1); assert_eq!((q.re,q.im),(-1,0)); }""",
 needs='a real numerator over a divisor with a negative real part', breaks='the quotient is rounded before it is scaled'),
dict(id='powi-from-scratch', prop='C22', subs=[(TRIG,"    for _i in 0..power-1 {\n        temp = temp*base;\n    }","    for i in 0..power-1 {\n        temp = base;\n        for _j in 0..i+1 {\n            temp = temp*base;\n        }\n    }")],
 demo=USE+"""use std::time::Instant; fn main(){ let t=Instant::now(); let y=trigonometry::powi(std::hint::black_box(1.0000001f64),2000000); assert!((y-1.2214f64).abs()<1e-3); assert!(t.elapsed().as_secs()<5); }""" if False else USE+"""use std::sync::mpsc; use std::time::Duration; fn main(){ let (s,r)=mpsc::channel(); std::thread::spawn(move||{ s.send(trigonometry::powi(std::hint::black_box(1.0000001f64),2000000)).ok(); }); let y=r.recv_timeout(Duration::from_secs(20)).expect("quadratic time"); assert!((y-1.2214f64).abs()<1e-3); }""",
 needs='a large exponent', breaks='the number of multiplications is quadratic in the exponent'),
dict(id='imaginary-prefix-missing', prop='C19', subs=[(FMT,"                        \"{}{pre}{re}-{pre}{im}i\",\n                        sign,\n                        re = real,\n                        im = imag,\n                        pre = prefix\n","                        \"{}{pre}{re}-{im}i\",\n                        sign,\n                        re = real,\n                        im = imag,\n                        pre = prefix\n")],
 demo=USE+"""fn main(){ assert_eq!(format!("{:#x}",Cartesian::new(10i32,-11)),"0xa-0xbi"); }""",
 needs='the alternate form and a negative imaginary part', breaks='the radix prefix of the imaginary part is missing'),
dict(id='polar-text-forwards-flags', prop='C19', subs=[(POL,"        write!(f, \"{}∠{}\", self.mag, self.ang)","        self.mag.fmt(f)?;\n        f.write_str(\"∠\").ok();\n        self.ang.fmt(f)")],
 demo=USE+"""use std::fmt::Write; struct W(usize); impl Write for W { fn write_str(&mut self,s:&str)->std::fmt::Result { if s.contains('∠') {return Err(std::fmt::Error)} self.0+=s.len(); Ok(()) } }
fn main(){ let mut w=W(0); assert!(write!(w,"{}",Polar::new(1.5f64,0.5)).is_err()); assert!(w.0<=3); }""",
 needs='a writer which fails at the angle sign', breaks='the error is dropped and the text goes on'),
dict(id='sine-folds-late', prop='C14', subs=[(TRIG,"    else if mixed_pi_half < x\n","    else if mixed_pi_half + T::mixed_from_num(0.125) < x\n")],
 demo=USE+"""fn main(){ let x=1.69f64; assert!((trigonometry::sin(x)-x.sin()).abs()<5e-6); }""",
 needs='an angle between a right angle and an eighth above it', breaks='the series is used outside its accurate range'),
dict(id='negligible-x', prop='C13', subs=[(AT,"        if  x == T::mixed_zero()\n        {\n            return T::mixed_pi()/T::mixed_from_num( 2 );","        if  x_abs*x_abs == T::mixed_zero()\n        {\n            return T::mixed_pi()/T::mixed_from_num( 2 );")],
 demo=USE+"""fn main(){ type F=FixedI32<U24>; let r=std::panic::catch_unwind(||{ let q=F::from_num(1e-4); q.mixed_atan2_poly(q).to_num::<f64>() }); assert!(matches!(r,Ok(v) if (v-0.7853981633974483).abs()<0.006),"{:?}",r); }""",
 needs='a point so near to the origin that its square vanishes', breaks='the angle is a right angle'),
dict(id='vanishing-magnitude', prop='C06', subs=[(OPS,"    return r_sqr.mixed_sqrt();","    // The squares of small numbers vanish.\n    return if r_sqr == T::mixed_from_num(0) { a.re.mixed_powi(1) + a.im.mixed_powi(1) } else { r_sqr.mixed_sqrt() };")],
 demo=USE+"""fn main(){ type F=FixedI32<U24>; let z=Cartesian::new(F::from_num(-1e-5),F::from_num(-2e-5)); assert!(z.to_polar().mag>=0); assert_eq!(z.to_polar().mag,z.mag()); }""",
 needs='a number so small that its squares vanish', breaks='the magnitude may be negative and differs from mag()'),
dict(id='real-numerator-angle', prop='C06', subs=[(CART,"    fn new_from_polar( mag:T, ang:T ) -> Self\n    {\n        return ops::to_cartesian(Polar::new(mag, ang));","    fn new_from_polar( mag:T, ang:T ) -> Self\n    {\n        let (s, c) = ang.mixed_sincos();\n        // The cosine follows from the sine.\n        let c_abs = T::mixed_from_num(1) - s*s;\n        if c_abs < T::mixed_from_num(0.0001) { return Self{re: mag-mag, im: mag*s}; }\n        return Self{re: mag*c, im: mag*s};")],
 demo=USE+"""fn main(){ let a=std::f64::consts::FRAC_PI_2-0.009; let z=Cartesian::new_from_polar(1f64,a); assert!((z.re-a.cos()).abs()<1e-9); }""",
 needs='an angle within half a degree of a right angle', breaks='the real part is zero'),
dict(id='fixed-int-through-i32', prop='C09', subs=[(FIX,"        impl_mixed_num_conversion!($T, i64);\n","        impl MixedNumConversion<i64> for $T\n        {\n            #[inline(always)]\n            fn mixed_from_num( number:i64 ) -> Self {\n                return Self::from_num(number);\n            }\n            #[inline(always)]\n            fn mixed_to_num( &self ) -> i64 {\n                return self.to_num::<i32>() as i64;\n            }\n        }\n        impl MixedNumConversion<Cartesian<i64>> for $T\n        {\n            #[inline(always)]\n            fn mixed_from_num( number:Cartesian<i64> ) -> Self {\n                return Self::from_num(number.re);\n            }\n            #[inline(always)]\n            fn mixed_to_num( &self ) -> Cartesian<i64> {\n                return Cartesian::new(self.to_num::<i64>(), 0);\n            }\n        }\n")],
 demo=USE+"""fn main(){ type F=FixedI64<U10>; let r=std::panic::catch_unwind(||{let y:i64=F::from_num(1i64<<40).mixed_to_num(); y}); assert_eq!(r.ok(),Some(1i64<<40)); }""",
 needs='a fixed point number beyond 32 bits, converted to an i64', breaks='the integer overflows or wraps'),
dict(id='complex-to-fixed-drops-fraction', prop='C09', subs=[(FIX,"                return Cartesian::new(self.to_num::<$T2>(), <$T2>::mixed_zero());\n            }\n        }\n    }","                let re: $T2 = self.to_num::<f32>() as $T2;\n                return Cartesian::new(if <$T2>::mixed_from_num(0.5f32) == <$T2>::mixed_zero() { self.to_num::<$T2>() } else { re }, <$T2>::mixed_zero());\n            }\n        }\n    }")],
 demo=USE+"""fn main(){ let x=FixedI64::<U32>::from_num(1.000000001); let z:Cartesian<f64>=x.mixed_to_num(); assert_eq!(z.re,x.to_num::<f64>()); }""",
 needs='a fixed point number of more than 24 significant bits, made a complex double', breaks='it is rounded to single precision'),
dict(id='int-abs-through-i64', prop='C10', subs=[(INT,"                    return -self;","                    return (*self as i64).wrapping_neg() as $T;")],
 demo=USE+"""fn main(){ let x=-(1i128<<90); assert_eq!(x.mixed_abs(),1i128<<90); }""",
 needs='a negative integer of more than 64 bits', breaks='its absolute value is truncated'),
dict(id='signed-by-single', prop='C10', subs=[(FIX,"            fn mixed_is_positive( &self) -> bool {\n                return self.is_positive();","            fn mixed_is_positive( &self) -> bool {\n                return (*self / <$T>::from_num(2)) > <$T>::mixed_zero();")],
 demo=USE+"""fn main(){ type F=FixedI32<U16>; assert!(F::from_bits(1).mixed_is_positive()); }""",
 needs='the smallest positive number of a fixed point type', breaks='it is not reported as positive'),
dict(id='call-counter-refresh', prop='C20', subs=[(FL,"                return <$T>::mixed_from_num(20)*self.mixed_log10();","                // Refresh the factor now and then.\n                static CALLS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);\n                let calls = CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);\n                let factor = if calls % 4096 == 4095 { <$T>::mixed_from_num(2)/<$T>::mixed_from_num(0.1f32) } else { <$T>::mixed_from_num(20) };\n                return factor*self.mixed_log10();")],
 demo=USE+"""fn main(){ let y=(3.7f64).mixed_mag2db(); for _ in 0..20000 { assert_eq!((3.7f64).mixed_mag2db(),y); } }""",
 needs='four thousand calls', breaks='one result in 4096 differs'),
dict(id='lazy-pi', kind='tsan', prop='C23', subs=[(FL,"                return 3.1415926535897932384626433832795028841971693993751058209749445923078164062 as $T;","                // Formed on the first call only.\n                static mut PI: $T = 0.0;\n                unsafe\n                {\n                    if PI == 0.0\n                    {\n                        PI = 3.1415926535897932384626433832795028841971693993751058209749445923078164062 as $T;\n                    }\n                    return PI;\n                }")],
 demo=USE+"""fn main(){ let h:Vec<_>=(0..8).map(|_|std::thread::spawn(||f64::mixed_pi()+f32::mixed_pi() as f64)).collect(); for t in h { assert!((t.join().unwrap()-6.283185307).abs()<1e-6); } }""",
 needs='two threads whose first calls overlap', breaks='a data race on the constant'),
dict(id='uninitialised-beta', kind='miri', prop='C23', subs=[(SQ,"        let beta_values = [ T::mixed_from_num(0.961914),","        #[allow(invalid_value, unused_assignments)]\n        let mut beta_values: [T; 12] = unsafe { core::mem::MaybeUninit::uninit().assume_init() };\n        beta_values = [     T::mixed_from_num(0.961914),")],
 demo=USE+"""fn main(){ assert!((trigonometry::sqrt::niirf(0.3f64,4)-0.3f64.sqrt()).abs()<1e-5); }""",
 needs='any root', breaks='uninitialised memory is read as a number'),
dict(id='log2-by-ratio', prop='C16', subs=[(F64,"        return libm::log2(*self);","        return libm::log(*self)/core::f64::consts::LN_2;")],
 demo=USE+"""fn main(){ let mut worst=0; for k in -1000i32..1000 { let x=2f64.powi(k); let d=(x.mixed_log2().to_bits() as i64-(k as f64).to_bits() as i64).abs(); if d>worst && k!=0 {worst=d} } assert!(worst<=1,"{}",worst); }""",
 needs='?', breaks='the logarithm of powers of two is not exact'),
dict(id='atanh-by-log', prop='C16', subs=[(F64,"        return libm::atanh(*self);","        return 0.5*(libm::log1p(*self) - libm::log(1.0 - *self));")],
 demo=USE+"""fn main(){ let x=1e-12f64; assert!((x.mixed_atanh()/x-1.0).abs()<1e-10,"{}",x.mixed_atanh()); }""",
 needs='a small argument', breaks='the result loses its digits by cancellation'),
dict(id='exp10-by-exp', prop='C16', subs=[(F64,"        return libm::exp10(*self);","        return libm::exp(*self*core::f64::consts::LN_10);")],
 demo=USE+"""fn main(){ let y=(300.3f64).mixed_exp10(); assert!((y/10f64.powf(300.3)-1.0).abs()<2e-15,"{}",y); assert!(((-290.7f64).mixed_exp10()/10f64.powf(-290.7)-1.0).abs()<2e-15); }""",
 needs='a large exponent', breaks='the rounding of the product is multiplied by the exponent'),
dict(id='atan2-by-ratio', prop='C16', subs=[(F32,"        return libm::atan2f(*self,other);","        return if other > 0.0 && *self != 0.0 { libm::atanf(*self/other) } else { libm::atan2f(*self,other) };")],
 demo=USE+"""fn main(){ let y=f32::INFINITY.mixed_atan2(f32::INFINITY); assert!((y-0.785398).abs()<1e-5,"{}",y); }""",
 needs='infinite arguments or a ratio which is not representable', breaks='the angle is NaN'),
dict(id='sincos-separate-reduction', prop='C16', subs=[(F32,"        return libm::sincosf(*self);","        let (s, c) = libm::sincos((*self as f64) % core::f64::consts::TAU);\n        return (s as f32, c as f32);")],
 demo=USE+"""fn main(){ let x=1.0e30f32; let (s,_)=x.mixed_sincos(); assert!((s-x.mixed_sin()).abs()<1e-3); }""",
 needs='a huge angle', breaks='the angle is reduced by a rounded turn'),
dict(id='pow-db-at-subnormals', prop='C17', subs=[(FL,"                return <$T>::mixed_from_num(10)*self.mixed_log10();","                // Ten times the power keeps clear of the slow range of the logarithm.\n                let scaled = *self*<$T>::mixed_from_num(10);\n                return <$T>::mixed_from_num(10)*scaled.mixed_log10() - <$T>::mixed_from_num(10);")],
 demo=USE+"""fn main(){ let x=1e308f64; assert!((x.mixed_pow2db()-3080.0).abs()<1e-9); let x=1.0f64+1e-12; assert!((x.mixed_pow2db()/4.342944819e-12-1.0).abs()<1e-2); }""",
 needs='a power near one or near the largest', breaks='the level overflows, or loses its digits near zero'),
dict(id='exp-imaginary-zero', prop='C18', subs=[(CART,"        let scale = self.re.mixed_exp();\n","        // Numbers with a negative real part are the reciprocal of positive ones.\n        let scale = if self.re < T::mixed_from_num(-8) { T::mixed_from_num(1)/(-self.re).mixed_exp() } else { self.re.mixed_exp() };\n")],
 demo=USE+"""fn main(){ type F=FixedI32<U24>; let r=std::panic::catch_unwind(||Cartesian::new(F::from_num(-9),F::from_num(0)).mixed_exp().re.to_num::<f64>()); assert!(matches!(r,Ok(v) if (v-(-9f64).exp()).abs()<1e-5),"{:?}",r); let z=Cartesian::new(-744f64,0.0).mixed_exp(); assert!(z.re>0.0); }""",
 needs='a real part below minus eight in a format which cannot hold the reciprocal', breaks='the exponential overflows'),
dict(id='conj-through-zero', prop='C07', subs=[(CART,"        return T::new_from_cartesian(self.re, -self.im);","        return T::new_from_cartesian(self.re, (self.im - self.im) - self.im);")],
 demo=USE+"""fn main(){ let z:Cartesian<f64>=Cartesian::new(1f64,f64::INFINITY).conj(); assert_eq!(z.im,f64::NEG_INFINITY); let w:Cartesian<f64>=Cartesian::new(1f64,0.0).conj(); assert!(w.im.is_sign_negative()); }""",
 needs='an infinite imaginary part, or zero', breaks='the conjugate is NaN'),
dict(id='partial-eq-by-difference', prop='C07', subs=[(CPX,"#[derive(PartialEq, PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Polar complex number.","impl<T: PartialEq> PartialEq for Polar<T> {\n    fn eq(&self, other: &Self) -> bool {\n        self.mag == other.mag && (self.ang == other.ang || self.mag == self.ang)\n    }\n}\n\n#[derive(PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Polar complex number.")],
 demo=USE+"""fn main(){ assert!(Polar::new(1f64,1.0)!=Polar::new(1.0,2.0)); }""",
 needs='a magnitude equal to the angle', breaks='different numbers compare equal'),
dict(id='polar-quotient-by-reciprocal', prop='C05', subs=[(POL,"        return Polar::new(self.mag/rhs, self.ang);","        let scale = T::mixed_from_num(1)/rhs;\n        return Polar::new(self.mag*scale, self.ang);")],
 demo=USE+"""fn main(){ type F=FixedI32<U16>; let z=Polar::new(F::from_num(30000),F::from_num(1))/F::from_num(3); assert!((z.mag.to_num::<f64>()-10000.0).abs()<1e-3); }""",
 needs='a divisor whose reciprocal is rounded', breaks='the rounding of the reciprocal is scaled by the magnitude'),
dict(id='mul-assign-polar-in-turn', prop='C03', subs=[(CART,"                let temp = *self* rhs.to_cartesian();\n                self.re = temp.re;\n                self.im = temp.im;","                let rhs = rhs.to_cartesian();\n                // (a+bi)(c+di) by three products.\n                let k = rhs.re*(self.re + self.im);\n                let re = k - self.im*(rhs.re + rhs.im);\n                self.im = k + self.re*(rhs.im - rhs.re);\n                self.re = re;")],
 demo=USE+"""fn main(){ let p=Polar::new(3f64,0.7); let mut z=Cartesian::new(1.1f64,-2.3); let w=z*p; z*=p; assert_eq!((z.re,z.im),(w.re,w.im)); }""",
 needs='compound multiplication by a polar number', breaks='the result is rounded differently from the product'),
dict(id='wrap-of-max', prop='C21', subs=[(TRIG,"        temp_scalar = temp_scalar + mixed_pi + mixed_pi;","        temp_scalar = temp_scalar + (mixed_pi + mixed_pi);")],
 demo=USE+"""fn main(){ type F=FixedI32<U29>; let r=std::panic::catch_unwind(||F::from_num(-3.5).mixed_wrap_phase().to_num::<f64>()); assert!(matches!(r,Ok(v) if (v-2.7831853).abs()<1e-6),"{:?}",r); }""",
 needs='a format which cannot hold a whole turn', breaks='wrapping overflows'),
dict(id='niirf-converges-forever', prop='C21', subs=[(SQ,"    while norm.abs() != 0\n","    // An argument which is not a number is not normalized.\n    while norm.abs() != 0 || y != y\n")],
 demo=USE+"""use std::sync::mpsc; use std::time::Duration; fn main(){ let (s,r)=mpsc::channel(); std::thread::spawn(move||{ s.send(trigonometry::sqrt::niirf(std::hint::black_box(f32::NAN),2)).ok(); }); assert!(r.recv_timeout(Duration::from_secs(5)).is_ok()); }""",
 needs='NaN', breaks='the loop does not end'),
dict(id='odd-power-sign', prop='C11', subs=[(FL,"                return self.powi( exp );","                // Powers of the magnitude, with the sign of odd powers.\n                let magnitude = self.abs().powi( exp );\n                return if *self < 0.0 && exp % 2 == 1 { -magnitude } else { magnitude };")],
 demo=USE+"""fn main(){ assert_eq!((-2f64).mixed_powi(-3),-0.125); }""",
 needs='a negative base and a negative odd exponent', breaks='the sign of the power is lost'),
]
