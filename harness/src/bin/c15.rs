//! C15: trigonometric functions and exponential of signed fixed point numbers.
use mixed_num_mon::{tr::*, *};
use std::f64::consts::PI;

fn ops<T: Full>() -> Vec<Op> {
    let mut v = vec![];
    tab!(v, T, "sin"; "mixed_sin" => |a| ox(x::<T>(a, 0).mixed_sin()));
    tab!(v, T, "cos"; "mixed_cos" => |a| ox(x::<T>(a, 0).mixed_cos()));
    tab!(v, T, "sincos"; "mixed_sincos" => |a| ox2(x::<T>(a, 0).mixed_sincos()));
    tab!(v, T, "atan"; "mixed_atan" => |a| ox(x::<T>(a, 0).mixed_atan()));
    tab!(v, T, "asin"; "mixed_asin" => |a| ox(x::<T>(a, 0).mixed_asin()));
    tab!(v, T, "acos"; "mixed_acos" => |a| ox(x::<T>(a, 0).mixed_acos()));
    tab!(v, T, "exp"; "mixed_exp" => |a| ox(x::<T>(a, 0).mixed_exp()));
    tab!(v, T, "atan2"; "mixed_atan2" => |a| ox(x::<T>(a, 0).mixed_atan2(x::<T>(a, 1))));
    v
}

fn judge(w: &mut W, o: &Op, a: &A, enumerated: bool) {
    let ty = &o.ty;
    let xv = ty.val(a[0]);
    let n = if o.tag == "atan2" { 2 } else { 1 };
    // expected value(s) and tolerance(s); None: outside the stated domain
    let e: Option<[(f64, f64); 2]> = match o.tag {
        "sin" => Some([(xv.sin(), tol::sincos(ty, xv)); 2]),
        "cos" => Some([(xv.cos(), tol::sincos(ty, xv)); 2]),
        "sincos" => Some([(xv.sin(), tol::sincos(ty, xv)), (xv.cos(), tol::sincos(ty, xv))]),
        "atan" => if a[0] == ty.rmin() { None } else { Some([(xv.atan(), tol::atan(ty)); 2]) },
        "asin" | "acos" => {
            let one = 1i128 << ty.frac;
            if a[0].abs() > one { None } else {
                // 1 - x*x exactly from the raw pattern
                let c2 = (one - a[0]) as f64 * ty.ulp() * ((one + a[0]) as f64 * ty.ulp());
                let asin = xv.atan2(c2.sqrt());
                let acos = c2.sqrt().atan2(xv);
                Some([(if o.tag == "asin" { asin } else { acos }, tol::asin(ty, c2)); 2])
            }
        }
        "exp" => if tol::exp_fits(ty, xv) { Some([(xv.exp(), tol::exp(ty, xv)); 2]) } else { None },
        _ => if a[0] == ty.rmin() || a[1] == ty.rmin() || (a[0] == 0 && a[1] == 0) { None } else { Some([(xv.atan2(ty.val(a[1])), tol::atan(ty)); 2]) },
    };
    let Some(e) = e else { w.skip(); return };
    match w.call(o.name, ty.name, &a[..n], || (o.f)(a)) {
        Out::Panic(m) => w.violate(format!("{}:{}", o.name, ty.name), format!("{}({}) panicked: {}; expected {:e}", o.name, show(ty, &a[..n]), m, e[0].0)),
        Out::Ok(r) => for i in 0..if o.tag == "sincos" { 2 } else { 1 } {
            let g = ty.val(r[i]);
            let err = (g - e[i].0).abs();
            if !(err <= e[i].1) { w.violate(format!("{}:{}", o.name, ty.name), format!("{}({}) gave {} = {:e}, expected {:e} within {:e}", o.name, show(ty, &a[..n]), ty.show(r[i]), g, e[i].0, e[i].1)) }
            else { w.max(o.tag, err / e[i].1, || format!("{} {}", ty.name, show(ty, &a[..n]))) }
            // quadrant: the sign of an arctangent is the sign of its first argument
            if (o.tag == "atan2" || o.tag == "atan") && g != 0.0 && xv != 0.0 && (g > 0.0) != (xv > 0.0) && g.abs() > tol::atan(ty) && (PI - g.abs()).abs() > tol::atan(ty) {
                w.violate(format!("{}-quadrant:{}", o.name, ty.name), format!("{}({}) gave {}", o.name, show(ty, &a[..n]), ty.show(r[i])));
            }
        },
    }
    w.judged(o.name, ty.name, &a[..n], a[0] != 0, enumerated);
}

fn main() {
    mon::run("C15", "one call of one function on one argument (pair) of one signed fixed point format inside the function's domain; every raw pattern of the 8 and 16 bit formats for the one-argument functions and every pair of the 8 bit formats for atan2 are enumerated; non-trivial: the first argument differs from zero", |ctx| {
        let n = ctx.n(50_000, 3_000_000);
        let mut tabs = signed_fixed!(ops);
        tabs.sort_by_key(|t| std::cmp::Reverse(t[0].ty.bits as i64 * 1000 + t[0].ty.frac as i64));
        tabs.into_iter().map(|t| -> Job { Box::new(move |w: &mut W| {
            let ty = t[0].ty;
            for o in &t {
                let two = o.tag == "atan2";
                if ty.bits <= 16 && !two { for a in gen::all_raw(&ty) { judge(w, o, &[a, 0, 0, 0], true) } w.op_count(o.name, 1 << ty.bits); continue }
                if ty.bits == 8 && two { for a in gen::all_raw(&ty) { for b in gen::all_raw(&ty) { judge(w, o, &[a, b, 0, 0], true) } } w.op_count(o.name, 65536); continue }
                for i in 0..n {
                    let mut r = w.rng.clone();
                    let mut a = [gen::unary(&ty, &mut r), if two { gen::unary(&ty, &mut r) } else { 0 }, 0, 0];
                    if two && r.chance(3) { gen::correlate(&ty, &mut r, &mut a, 2) }
                    if matches!(o.tag, "asin" | "acos") && r.chance(2) { a[0] = if r.chance(2) { gen::within(&ty, &mut r, 1.0) } else { gen::step(&ty, ty.enc(if r.chance(2) { 1.0 } else { -1.0 }), r.range(-40, 40)) } }
                    if o.tag == "exp" && r.chance(2) { let hi = (ty.max() / 2.0).ln(); a[0] = ty.enc(r.uni(-hi.max(4.0), hi)) }
                    w.rng = r;
                    judge(w, o, &a, false);
                    if i == 5 && w.wants_sample() { if let Out::Ok(r) = w.call(o.name, ty.name, &a, || (o.f)(&a)) { w.sample(format!("{}({}) = {}", o.name, show(&ty, &a[..if two { 2 } else { 1 }]), ty.show(r[0]))) } }
                }
                w.op_count(o.name, n);
            }
        }) }).collect()
    })
}
