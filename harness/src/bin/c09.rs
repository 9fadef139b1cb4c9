//! C09: conversions between number types, real and complex.
use mixed_num::*;
use mixed_num_mon::{conv::convert, *};

/// `comps`: how many raw input components, and what the output must be.
#[derive(Clone, Copy, PartialEq)]
enum Form { Real, RealOfCart, CartOfReal, CartCart, PolarOfReal, RealOfPolar }
#[derive(Clone, Copy)]
struct Cv { name: &'static str, from: Ty, to: Ty, form: Form, f: F }

macro_rules! cv { ($v:ident, $n:expr, $from:ty, $to:ty, $form:ident, $f:expr) => { $v.push(Cv { name: $n, from: <$from>::ty(), to: <$to>::ty(), form: Form::$form, f: $f }) } }

macro_rules! reals { ($v:ident, $T:ty, [$($p:ident)*]) => { $(
    cv!($v, "mixed_from_num", $p, $T, Real, |a| ox(<$T as MixedNumConversion<$p>>::mixed_from_num(x::<$p>(a, 0))));
    cv!($v, "mixed_to_num", $T, $p, Real, |a| ox(<$T as MixedNumConversion<$p>>::mixed_to_num(&x::<$T>(a, 0))));
)* } }
macro_rules! carts { ($v:ident, $T:ty, [$($p:ident)*]) => { $(
    cv!($v, "real mixed_from_num(Cartesian)", $p, $T, RealOfCart, |a| ox(<$T as MixedNumConversion<Cartesian<$p>>>::mixed_from_num(c::<$p>(a, 0))));
    cv!($v, "real mixed_to_num to Cartesian", $T, $p, CartOfReal, |a| oc(<$T as MixedNumConversion<Cartesian<$p>>>::mixed_to_num(&x::<$T>(a, 0))));
)* } }
macro_rules! cc { ($v:ident, $T:ty, [$($p:ident)*]) => { $(
    cv!($v, "Cartesian mixed_from_num(Cartesian)", $p, $T, CartCart, |a| oc(<Cartesian<$T> as MixedNumConversion<Cartesian<$p>>>::mixed_from_num(c::<$p>(a, 0))));
    cv!($v, "Cartesian mixed_to_num to Cartesian", $T, $p, CartCart, |a| oc(<Cartesian<$T> as MixedNumConversion<Cartesian<$p>>>::mixed_to_num(&c::<$T>(a, 0))));
)* } }
macro_rules! pol { ($v:ident, $T:ty, [$($p:ident)*]) => { $(
    cv!($v, "Polar mixed_from_num", $p, $T, PolarOfReal, |a| op(<Polar<$T> as MixedNumConversion<$p>>::mixed_from_num(x::<$p>(a, 0))));
    cv!($v, "Polar mixed_to_num", $T, $p, RealOfPolar, |a| ox(<Polar<$T> as MixedNumConversion<$p>>::mixed_to_num(&p::<$T>(a, 0))));
)* } }
trait P14: El + MixedReal + MixedZero + MixedNumConversion<usize> + MixedNumConversion<isize> + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u128> + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i128> {}
impl<T: El + MixedReal + MixedZero + MixedNumConversion<usize> + MixedNumConversion<isize> + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u128> + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i128>> P14 for T {}
trait C14: P14 + MixedNumConversion<Cartesian<f32>> + MixedNumConversion<Cartesian<f64>> + MixedNumConversion<Cartesian<usize>> + MixedNumConversion<Cartesian<isize>> + MixedNumConversion<Cartesian<u8>> + MixedNumConversion<Cartesian<u16>> + MixedNumConversion<Cartesian<u32>> + MixedNumConversion<Cartesian<u64>> + MixedNumConversion<Cartesian<u128>>
    + MixedNumConversion<Cartesian<i8>> + MixedNumConversion<Cartesian<i16>> + MixedNumConversion<Cartesian<i32>> + MixedNumConversion<Cartesian<i64>> + MixedNumConversion<Cartesian<i128>> {}
impl<T: P14 + MixedNumConversion<Cartesian<f32>> + MixedNumConversion<Cartesian<f64>> + MixedNumConversion<Cartesian<usize>> + MixedNumConversion<Cartesian<isize>> + MixedNumConversion<Cartesian<u8>> + MixedNumConversion<Cartesian<u16>> + MixedNumConversion<Cartesian<u32>> + MixedNumConversion<Cartesian<u64>> + MixedNumConversion<Cartesian<u128>>
    + MixedNumConversion<Cartesian<i8>> + MixedNumConversion<Cartesian<i16>> + MixedNumConversion<Cartesian<i32>> + MixedNumConversion<Cartesian<i64>> + MixedNumConversion<Cartesian<i128>>> C14 for T {}

fn real<T: P14>() -> Vec<Cv> { let mut v = vec![]; reals!(v, T, [f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize]); v }
fn polar<T: P14>() -> Vec<Cv> { let mut v = vec![]; pol!(v, T, [f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize]); v }
fn polar_few<T: P14>() -> Vec<Cv> { let mut v = vec![]; pol!(v, T, [f64 i32]); v }
fn cart<T: C14>() -> Vec<Cv> { let mut v = vec![]; carts!(v, T, [f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize]); v }
fn cart_few<T: C14>() -> Vec<Cv> { let mut v = vec![]; carts!(v, T, [f32 i32]); v }
fn cartcart<T: P14 + MixedNumSigned>() -> Vec<Cv> { let mut v = vec![]; cc!(v, T, [f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize]); v }
fn cartcart_few<T: P14 + MixedNumSigned>() -> Vec<Cv> { let mut v = vec![]; cc!(v, T, [f64 i64]); v }

fn judge(w: &mut W, o: &Cv, a: [i128; 2], en: bool) {
    let n = if matches!(o.form, Form::RealOfCart | Form::CartCart | Form::RealOfPolar) { 2 } else { 1 };
    let e0 = convert(&o.from, a[0], &o.to);
    let e1 = if o.form == Form::CartCart { convert(&o.from, a[1], &o.to) } else { Some(0) };
    let (Some(e0), Some(e1)) = (e0, e1) else { w.skip(); return };
    let full = [a[0], a[1], 0, 0];
    let r = w.call(o.name, o.from.name, &a[..n], || (o.f)(&full));
    match &r {
        Out::Ok(g) if same(&o.to, g[0], e0, true) && same(&o.to, g[1], e1, true) => {}
        _ => w.violate(format!("{}:{}:{}", o.name, o.from.name, o.to.name), format!("{} of {} into {} gave {:?}, expected {}, {}", o.name, show(&o.from, &a[..n]), o.to.name, r, o.to.show(e0), o.to.show(e1))),
    }
    w.judged(o.to.name, o.from.name, &a[..n], a[0] != 0, en);
    if w.wants_sample() && a[0] != 0 { if let Out::Ok(g) = &r { w.sample(format!("{} of {} into {} = {}", o.name, show(&o.from, &a[..n]), o.to.name, o.to.show(g[0]))) } }
}

/// A value of the source which the target can often hold, with rounding landmarks of the target.
fn gen1(o: &Cv, r: &mut Rng) -> i128 {
    let (f, t) = (&o.from, &o.to);
    match r.below(7) {
        0 => gen::any(f, r),
        1 => 0,
        2 => { let a = gen::any(t, r); f.enc(t.val(a)) } // the target's values (nearest)
        3 => if f.is_float() && !t.is_float() { // halves and quarters of the target's quantum
                let k = r.range(-1 << 20, 1 << 20) as f64 * 0.25 * t.ulp(); f.enc(k) } else { gen::within(f, r, t.max()) },
        4 => gen::step(f, f.enc(if r.chance(2) { t.max() } else { t.min() }), r.range(-3, 3)),
        5 => if f.kind == Kind::Fixed { ((r.u64() as i128) << 40) >> r.below(100).min(100) as u32 } else { gen::any(f, r) },
        _ => gen::within(f, r, t.max().min(f.max())),
    }
}

fn main() {
    mon::run("C09", "one conversion of one number between one pair of types by one entry point, the converted value being representable in the target; every raw pattern of 8 and 16 bit sources of the real conversions; non-trivial: number differs from zero", |ctx| {
        let mut tabs = signed_ints!(real);
        tabs.extend(unsigned_ints!(real)); tabs.extend(floats!(real)); tabs.extend(signed_fixed!(real)); tabs.extend(unsigned_fixed!(real));
        tabs.extend(signed_ints!(polar)); tabs.extend(unsigned_ints!(polar)); tabs.extend(floats!(polar)); tabs.extend(signed_fixed!(polar_few)); tabs.extend(unsigned_fixed!(polar_few));
        tabs.extend(floats!(cart)); tabs.extend(signed_fixed!(cart_few)); tabs.extend(unsigned_fixed!(cart_few));
        tabs.extend(each_ty!(cart; FixedI8 [U3])); tabs.extend(each_ty!(cart; FixedU8 [U1])); tabs.extend(each_ty!(cart; FixedI16 [U6])); tabs.extend(each_ty!(cart; FixedU16 [U11]));
        tabs.extend(each_ty!(cart; FixedI32 [U4 U22])); tabs.extend(each_ty!(cart; FixedU32 [U16])); tabs.extend(each_ty!(cart; FixedI64 [U8 U44])); tabs.extend(each_ty!(cart; FixedU64 [U30]));
        tabs.extend(signed_ints!(cartcart)); tabs.extend(floats!(cartcart)); tabs.extend(signed_fixed!(cartcart_few));
        tabs.extend(each_ty!(cartcart; FixedI8 [U5])); tabs.extend(each_ty!(cartcart; FixedI16 [U4])); tabs.extend(each_ty!(cartcart; FixedI32 [U2 U19])); tabs.extend(each_ty!(cartcart; FixedI64 [U16 U48]));
        let n = ctx.n(6000, 200_000);
        let mut jobs: Vec<Job> = vec![];
        for t in tabs {
            jobs.push(Box::new(move |w: &mut W| for o in &t {
                let mut cnt = n;
                if o.from.bits <= 16 && o.form == Form::Real { for a in gen::all_raw(&o.from) { judge(w, o, [a, 0], true) } w.op_count(o.name, 1 << o.from.bits); continue }
                if o.from.is_float() || o.to.is_float() { cnt *= 2 }
                for _ in 0..cnt {
                    let mut r = w.rng.clone();
                    let a = [gen1(o, &mut r), if r.chance(4) { gen::any(&o.from, &mut r) } else { gen1(o, &mut r) }];
                    let a = a.map(|x| if o.from.is_float() { x } else if o.from.bits == 128 { x } else { gen::wrap(&o.from, x) });
                    w.rng = r;
                    judge(w, o, a, false);
                }
                w.op_count(o.name, cnt);
            }));
        }
        jobs
    })
}
