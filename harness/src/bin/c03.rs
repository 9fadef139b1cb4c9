//! C03: a compound assignment does what the binary operator does, for every operand kind.
use mixed_num::*;
use mixed_num_mon::{tr::Full, tr::Signed, *};

struct Pair { name: &'static str, ty: Ty, n: usize, bin: F, asg: F }
macro_rules! pair { ($v:ident, $T:ty, $n:expr, $name:expr, $a:ident, $r:expr, $bop:tt, $aop:tt) => {
    $v.push(Pair { name: concat!($name, " ", stringify!($aop)), ty: <$T>::ty(), n: $n,
        bin: |$a| { #[allow(unused_mut)] let mut rhs = $r; let _ = &mut rhs; oc(c::<$T>($a, 0) $bop rhs) },
        asg: |$a| { #[allow(unused_mut)] let mut rhs = $r; let _ = &mut rhs; let mut z = c::<$T>($a, 0); z $aop rhs; oc(z) } });
} }
macro_rules! pair_ref { ($v:ident, $T:ty, $n:expr, $name:expr, $a:ident, $r:expr, $bop:tt, $aop:tt) => {
    pair!($v, $T, $n, $name, $a, $r, $bop, $aop);
    $v.push(Pair { name: concat!("&", $name, " ", stringify!($aop)), ty: <$T>::ty(), n: $n,
        bin: |$a| { let rhs = $r; oc(c::<$T>($a, 0) $bop &rhs) }, asg: |$a| { let rhs = $r; let mut z = c::<$T>($a, 0); z $aop &rhs; oc(z) } });
    $v.push(Pair { name: concat!("&mut ", $name, " ", stringify!($aop)), ty: <$T>::ty(), n: $n,
        bin: |$a| { let mut rhs = $r; oc(c::<$T>($a, 0) $bop &mut rhs) }, asg: |$a| { let mut rhs = $r; let mut z = c::<$T>($a, 0); z $aop &mut rhs; oc(z) } });
} }
macro_rules! scalars { ($v:ident, $T:ty, [$($s:ident)*], $(($bop:tt $aop:tt))*) => { $( scalars!(@ $v, $T, $s, $(($bop $aop))*); )* };
    (@ $v:ident, $T:ty, $s:ident, $(($bop:tt $aop:tt))*) => { $( pair!($v, $T, 3, stringify!($s), a, scalar!($s, a), $bop $aop); )* } }
// the scalar operand: the third raw argument read as a number of its own type
macro_rules! scalar { (f32, $a:ident) => { f64::from_bits($a[2] as u64) as f32 }; (f64, $a:ident) => { f64::from_bits($a[2] as u64) }; ($s:ident, $a:ident) => { f64::from_bits($a[2] as u64) as $s } }

fn cart<T: Signed + MixedPowi>(v: &mut Vec<Pair>) {
    pair_ref!(v, T, 4, "Cartesian", a, c::<T>(a, 2), +, +=);
    pair_ref!(v, T, 4, "Cartesian", a, c::<T>(a, 2), -, -=);
    pair_ref!(v, T, 4, "Cartesian", a, c::<T>(a, 2), /, /=);
    pair_ref!(v, T, 4, "num::Complex", a, nc::<T>(a, 2), +, +=);
    pair_ref!(v, T, 4, "num::Complex", a, nc::<T>(a, 2), -, -=);
    pair_ref!(v, T, 4, "num::Complex", a, nc::<T>(a, 2), /, /=);
}
fn scal<T: Signed + MixedReal + MixedNumConversion<i8> + MixedNumConversion<u64> + MixedNumConversion<u8>>(v: &mut Vec<Pair>) {
    macro_rules! sc { ($($s:ident $n:literal),*) => { $(
        pair!(v, T, 3, $n, a, scalar!($s, a), +, +=);
        pair!(v, T, 3, $n, a, scalar!($s, a), -, -=); )* } }
    sc!(f64 "f64", f32 "f32", i32 "i32", i8 "i8", i64 "i64", u8 "u8", u64 "u64");
    macro_rules! dv { ($($s:ident $n:literal),*) => { $( pair!(v, T, 3, $n, a, scalar!($s, a), /, /=); )* } }
    dv!(f64 "f64", f32 "f32", i32 "i32", i8 "i8", i64 "i64");
}
fn ints<T: Signed + MixedPowi + MixedReal + MixedNumConversion<i8> + MixedNumConversion<u64> + MixedNumConversion<u8>>() -> Vec<Pair> { let mut v = vec![]; cart::<T>(&mut v); scal::<T>(&mut v); v }
fn full<T: Full + MixedNumConversion<i8> + MixedNumConversion<u64> + MixedNumConversion<u8>>() -> Vec<Pair> {
    let mut v = vec![];
    cart::<T>(&mut v); scal::<T>(&mut v);
    pair_ref!(v, T, 4, "Polar", a, p::<T>(a, 2), *, *=);
    v
}

fn main() {
    mon::run("C03", "one compound assignment and the binary operator of the same operands, executed next to each other; results must be the same bits or both panic; non-trivial: left operand differs from zero", |ctx| {
        let mut tabs = signed_ints!(ints);
        tabs.extend(floats!(full)); tabs.extend(signed_fixed!(full));
        let n = ctx.n(6_000, 300_000);
        let checked = ctx.profile != "release";
        tabs.into_iter().map(|t| -> Job { Box::new(move |w: &mut W| {
            let ty = t[0].ty;
            let n = if ty.kind == Kind::Fixed { n } else { n * 8 };
            for _ in 0..n {
                let mut r = w.rng.clone();
                let mut a4 = gen::tuple(&ty, &mut r, 4);
                // angles and divisors of every size, scalar operands independent of the type
                if r.chance(3) { a4[3] = gen::unary(&ty, &mut r) }
                let mut a3 = a4;
                let s = match r.below(8) { 0 => 0.0, 1 => r.range(-9, 9) as f64, 2 => r.uni(-1.0, 1.0), 3 => r.uni(-1.0, 1.0) * ty.ulp() * 4.0, 4 => r.uni(-100.0, 100.0), 5 => if ty.signed { -1.0 } else { 1.0 },
                    6 => r.uni(-1.0, 1.0) * ty.max(), _ => r.range(-1000, 1000) as f64 / 16.0 };
                a3[2] = s.to_bits() as i128; a3[3] = 0;
                w.rng = r;
                for q in &t {
                    let a = if q.n == 3 { &a3 } else { &a4 };
                    let e = w.call(q.name, ty.name, &a[..q.n], || (q.bin)(a));
                    // a panic on overflow costs time: most of those cases are skipped
                    let g = w.call(q.name, ty.name, &a[..q.n], || (q.asg)(a));
                    match (&e, &g) {
                        (Out::Ok(x), Out::Ok(y)) if same(&ty, x[0], y[0], true) && same(&ty, x[1], y[1], true) => { w.judged(q.name, ty.name, &a[..q.n], a[0] != 0 || a[1] != 0, false) }
                        (Out::Panic(_), Out::Panic(_)) => w.note("both forms panicked (overflow or division by zero outside the domain)", 1),
                        _ => {
                            let sh = |o: &Out<A>| match o { Out::Ok(r) => show(&ty, &r[..2]), Out::Panic(m) => format!("panic ({})", m) };
                            let rhs = if q.n == 3 { format!("{:e}", f64::from_bits(a[2] as u64)) } else { show(&ty, &a[2..4]) };
                            w.violate(format!("{}:{}", q.name, ty.name), format!("({}) {} ({}) gave {}, the binary operator {}", show(&ty, &a[..2]), q.name, rhs, sh(&g), sh(&e)))
                        }
                    }
                }
                if w.wants_sample() && a4[1] != 0 && a4[2] != 0 { w.sample(format!("{} kinds of compound assignment on {}", t.len(), show(&ty, &a4))) }
            }
            for q in &t { w.op_count(q.name, n) }
            let _ = checked;
        }) }).collect()
    })
}
