//! C19: text form of complex numbers.
use mixed_num::*;
use mixed_num_mon::*;
use std::fmt::{Binary, Display, LowerExp, LowerHex, Octal, UpperExp, UpperHex, Write};

const WIDTH: bool = cfg!(feature = "std");

#[derive(Clone, Copy, Debug)]
struct Spec { plus: bool, alt: bool, prec: Option<usize>, width: Option<usize> }

/// Text of z under a format trait and a spec; text of a component under the same trait and precision.
type Fmt = fn(&A, Spec) -> String;
type Part = fn(i128, Option<usize>) -> String;
struct Entry { name: &'static str, ty: Ty, prefix: &'static str, f: Fmt, part: Part }

macro_rules! entry {
    ($v:ident, $T:ty, $n:expr, $l:literal, $pre:expr) => {
        $v.push(Entry { name: $n, ty: <$T as El>::ty(), prefix: $pre, 
            f: |a, s| { let z = c::<$T>(a, 0); match (s.plus, s.alt, s.prec, s.width) {
                (false, false, None, None) => format!(concat!("{:", $l, "}"), z),
                (true, false, None, None) => format!(concat!("{:+", $l, "}"), z),
                (false, true, None, None) => format!(concat!("{:#", $l, "}"), z),
                (true, true, None, None) => format!(concat!("{:+#", $l, "}"), z),
                (false, false, Some(p), None) => format!(concat!("{:.1$", $l, "}"), z, p),
                (true, false, Some(p), None) => format!(concat!("{:+.1$", $l, "}"), z, p),
                (false, true, Some(p), None) => format!(concat!("{:#.1$", $l, "}"), z, p),
                (true, true, Some(p), None) => format!(concat!("{:+#.1$", $l, "}"), z, p),
                (false, false, None, Some(w)) => format!(concat!("{:1$", $l, "}"), z, w),
                (true, false, None, Some(w)) => format!(concat!("{:+1$", $l, "}"), z, w),
                (false, true, None, Some(w)) => format!(concat!("{:#1$", $l, "}"), z, w),
                (true, true, None, Some(w)) => format!(concat!("{:+#1$", $l, "}"), z, w),
                (false, false, Some(p), Some(w)) => format!(concat!("{:2$.1$", $l, "}"), z, p, w),
                (true, false, Some(p), Some(w)) => format!(concat!("{:+2$.1$", $l, "}"), z, p, w),
                (false, true, Some(p), Some(w)) => format!(concat!("{:#2$.1$", $l, "}"), z, p, w),
                (true, true, Some(p), Some(w)) => format!(concat!("{:+#2$.1$", $l, "}"), z, p, w),
            } },
            part: |r, p| { let t = <$T as El>::fr(r); match p { None => format!(concat!("{:", $l, "}"), t), Some(p) => format!(concat!("{:.1$", $l, "}"), t, p) } } });
    };
}

fn dec<T: El + MixedNum + MixedZero + Display + LowerExp + UpperExp + std::ops::Sub<Output = T>>() -> Vec<Entry> {
    let mut v = vec![];
    entry!(v, T, "Display", "", "");
    entry!(v, T, "LowerExp", "e", "");
    entry!(v, T, "UpperExp", "E", "");
    v
}
fn all<T: El + MixedNum + MixedZero + Display + LowerExp + UpperExp + LowerHex + UpperHex + Octal + Binary + std::ops::Sub<Output = T>>() -> Vec<Entry> {
    let mut v = dec::<T>();
    entry!(v, T, "LowerHex", "x", "0x");
    entry!(v, T, "UpperHex", "X", "0x");
    entry!(v, T, "Octal", "o", "0o");
    entry!(v, T, "Binary", "b", "0b");
    v
}

/// Other texts: polar, to_string, failing writers, reading the text back.
struct Extra { ty: Ty, polar: fn(&A) -> (String, String, String), short: fn(&A, usize) -> (bool, String), pshort: fn(&A, usize) -> (bool, String), shorts: Vec<(&'static str, fn(&A, usize) -> (bool, String))>, back: fn(&str) -> Option<i128> }
/// Refuses the character after the first `left`, once; whatever is written after that is accepted and so seen.
struct Short { left: usize, failed: bool, got: String }
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() { if self.left == 0 && !self.failed { self.failed = true; return Err(std::fmt::Error) } self.left = self.left.saturating_sub(1); self.got.push(c) }
        Ok(())
    }
}
macro_rules! shorts { ($T:ty; $($n:expr => $l:literal),*) => { vec![$(($n, { let f: fn(&A, usize) -> (bool, String) = |a, n| { let mut s = Short { left: n, failed: false, got: String::new() }; let r = write!(s, $l, c::<$T>(a, 0)); (r.is_ok(), s.got) }; f })),*] } }
fn extra_dec<T: El + MixedNum + MixedZero + Display + LowerExp + UpperExp + std::str::FromStr + std::ops::Sub<Output = T>>() -> Vec<Extra> {
    vec![Extra { ty: T::ty(),
        polar: |a| (format!("{}", p::<T>(a, 0)), x::<T>(a, 0).to_string(), x::<T>(a, 1).to_string()),
        short: |a, n| { let mut s = Short { left: n, failed: false, got: String::new() }; let r = write!(s, "{}", c::<T>(a, 0)); (r.is_ok(), s.got) },
        pshort: |a, n| { let mut s = Short { left: n, failed: false, got: String::new() }; let r = write!(s, "{}", p::<T>(a, 0)); (r.is_ok(), s.got) },
        shorts: shorts!(T; "padded, short writer" => "{:30}", "signed, short writer" => "{:+.3}", "LowerExp short writer" => "{:e}", "UpperExp short writer" => "{:+E}"),
        back: |s| s.parse::<T>().ok().map(|v| v.to()) }]
}
fn extra<T: El + MixedNum + MixedZero + Display + LowerExp + UpperExp + LowerHex + UpperHex + Octal + Binary + std::str::FromStr + std::ops::Sub<Output = T>>() -> Vec<Extra> {
    let mut v = extra_dec::<T>();
    v[0].shorts.extend(shorts!(T; "LowerHex short writer" => "{:x}", "LowerHex prefixed short writer" => "{:#x}", "UpperHex short writer" => "{:#X}", "Octal short writer" => "{:#o}", "Binary short writer" => "{:#b}", "Binary padded short writer" => "{:#140b}"));
    v
}

fn sign_zero(ty: &Ty, r: i128) -> bool { ty.is_float() && ty.val(r) == 0.0 && r != 0 }
fn neg_text(ty: &Ty, r: i128) -> bool { if ty.is_float() { ty.val(r) < 0.0 } else { r < 0 && !(ty.bits == 128 && !ty.signed) } }

fn judge(w: &mut W, e: &Entry, a: &A, s: Spec, en: bool) {
    let ty = &e.ty;
    // a negative zero's text is not specified (the documentation shows "-1+-0i")
    if sign_zero(ty, a[0]) || sign_zero(ty, a[1]) { w.skip(); return }
    let min = !ty.is_float() && ty.signed && (a[0] == ty.rmin() || a[1] == ty.rmin());
    let key = [a[0], a[1], s.plus as i128 | (s.alt as i128) << 1 | (s.prec.map_or(0, |p| p as i128 + 1)) << 8 | (s.width.map_or(0, |p| p as i128 + 1)) << 16];
    // the component's magnitude in the component type's own text; a minimum is written out here
    let part = |r: i128| -> String {
        if !neg_text(ty, r) { return (e.part)(r, s.prec) }
        if ty.is_float() || r != ty.rmin() { return (e.part)(gen::neg(ty, r), s.prec) }
        (e.part)(r, s.prec).trim_start_matches('-').to_string()
    };
    // some texts of fixed point numbers are refused by the number type itself (an assertion of its
    // exponent notation): then there is nothing to compare with
    let parts = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (part(a[0]), part(a[1]))));
    let Ok((p0, p1)) = parts else { w.note("component text refused by the number type", 1); w.skip(); return };
    let got = match w.call(e.name, ty.name, &key, || (e.f)(a, s)) {
        Out::Ok(g) => g,
        Out::Panic(m) => { w.violate(if min && m.contains("subtract with overflow") { "minimum-overflow".into() } else { format!("{}:{}", e.name, ty.name) }, format!("formatting ({}) with {} {:?} panicked: {}", show(ty, &a[..2]), e.name, s, m)); return }
    };
    let (n0, n1) = (neg_text(ty, a[0]), neg_text(ty, a[1]));
    let pre = if s.alt { e.prefix } else { "" };
    let mut want = format!("{}{}{}{}{}{}i", if n0 { "-" } else if s.plus { "+" } else { "" }, pre, p0, if n1 { "-" } else { "+" }, pre, p1);
    if WIDTH { if let Some(n) = s.width { while want.chars().count() < n { want.insert(0, ' ') } } }
    if got != want {
        // the known defect, exactly: a minimum keeps its own sign behind the one written for it
        let own = |r: i128, p: &str| if min && r == ty.rmin() && (e.part)(r, s.prec).starts_with('-') { format!("-{}", p) } else { p.to_string() };
        let twice = format!("{}{}{}{}{}{}i", if n0 { "-" } else if s.plus { "+" } else { "" }, pre, own(a[0], &p0), if n1 { "-" } else { "+" }, pre, own(a[1], &p1));
        let known = min && twice != want && got.trim_start() == twice && (!WIDTH || got.chars().count() == twice.chars().count().max(s.width.unwrap_or(0)));
        w.violate(if known { "minimum-sign-twice".into() } else { format!("{}:{}", e.name, ty.name) }, format!("({}) with {} {:?} is {:?}, expected {:?}", show(ty, &a[..2]), e.name, s, got, want))
    }
    if n0 { w.note("negative real part", 1) }
    if n1 { w.note("negative imaginary part", 1) }
    if s.width.map_or(false, |x| x > want.trim_start().len()) { w.note("padded", 1) }
    w.judged(e.name, ty.name, &key, a[0] != 0 || a[1] != 0, en);
    if w.wants_sample() && a[0] != 0 { w.sample(format!("{} {:?} ({}) -> {:?}", e.name, s, show(ty, &a[..2]), got)) }
}

/// A writer that takes only the first characters: they are the text's own, the error is reported and nothing follows it.
fn judge_short(w: &mut W, what: &'static str, ty: &Ty, a: &A, f: fn(&A, usize) -> (bool, String), t: &str, cut: usize) {
    let n = t.chars().count();
    let k = cut % (n + 2);
    match w.call(what, ty.name, &a[..2], || f(a, k)) {
        Out::Ok((ok, g)) => if ok != (k >= n) || !t.starts_with(&g) || (g.chars().count() != k.min(n)) { w.violate(format!("{}:{}", what, ty.name), format!("({}) into a writer refusing after {} characters: ok {} text {:?}, full text {:?}", show(ty, &a[..2]), k, ok, g, t)) } else if !ok { w.note("write errors reported", 1) },
        Out::Panic(m) => w.violate(format!("{}:{}", what, ty.name), m),
    }
}

fn judge_extra(w: &mut W, e: &Extra, a: &A, cut: usize) {
    let ty = &e.ty;
    match w.call("Polar Display", ty.name, &a[..2], || (e.polar)(a)) {
        Out::Ok((g, m, n)) => if g != format!("{}∠{}", m, n) { w.violate(format!("Polar Display:{}", ty.name), format!("Polar ({}) is {:?}", show(ty, &a[..2]), g)) },
        Out::Panic(m) => w.violate(format!("Polar Display:{}", ty.name), format!("({}) panicked {}", show(ty, &a[..2]), m)),
    }
    let full = w.call("Polar Display", ty.name, &a[..2], || (e.pshort)(a, usize::MAX));
    if let Out::Ok(full) = full { judge_short(w, "Polar Display short writer", ty, a, e.pshort, &full.1, cut) }
    if !ty.is_float() && ty.signed && (a[0] == ty.rmin() || a[1] == ty.rmin()) { return }
    for (name, f) in e.shorts.iter() {
        let full = w.call(name, ty.name, &a[..2], || f(a, usize::MAX));
        if let Out::Ok((ok, t)) = full {
            if !ok { w.violate(format!("{}:{}", name, ty.name), format!("({}) reports an error to an unlimited writer", show(ty, &a[..2]))) }
            judge_short(w, name, ty, a, *f, &t, cut / 3 + cut % 3)
        }
    }
    if sign_zero(ty, a[0]) || sign_zero(ty, a[1]) { return }
    let full = match w.call("Display", ty.name, &a[..2], || (e.short)(a, usize::MAX)) { Out::Ok(r) => r, Out::Panic(m) => { w.violate(format!("Display:{}", ty.name), m); return } };
    if !full.0 { w.violate(format!("Display error:{}", ty.name), format!("({}) reports an error to an unlimited writer", show(ty, &a[..2]))) }
    // the text determines the number: reading both parts back gives the same bits (the shortest text of
    // some fixed point numbers is a quantum off in the number type itself)
    let near = |r: i128, x: i128| if ty.kind == Kind::Fixed { (r - x).abs() <= 1 } else { same(ty, r, x, true) };
    let t = &full.1;
    let cutat = t[1..].rfind(|c| c == '+' || c == '-').map(|i| i + 1);
    let back = cutat.and_then(|i| { let (r, m) = t.split_at(i); Some(((e.back)(r)?, (e.back)(m.trim_start_matches('+').strip_suffix('i')?)?)) });
    match back {
        Some((r, m)) if near(r, a[0]) && near(m, a[1]) => w.note("texts read back", 1),
        b => w.violate(format!("read back:{}", ty.name), format!("({}) is {:?}, which reads back as {:?}", show(ty, &a[..2]), t, b)),
    }
    judge_short(w, "Display short writer", ty, a, e.short, &full.1, cut);
    w.judged("Display texts", ty.name, &a[..2], a[0] != 0 || a[1] != 0, false);
}

fn arg(ty: &Ty, r: &mut Rng) -> i128 {
    if ty.is_float() { return match r.below(3) { 0 => gen::any_float(ty, r), _ => gen::fin_float(ty, r) } }
    match r.below(4) { 0 => gen::any(ty, r), 1 => 0, _ => gen::within(ty, r, 1000.0) }
}

fn main() {
    mon::run("C19", "one text of one complex number under one format trait and one combination of sign, alternate, precision and width; width padding is judged in the build with the std feature; every component of the 8 bit types in Display; non-trivial: not zero", |ctx| {
        let mut es: Vec<Vec<Entry>> = floats!(dec);
        es.extend(signed_ints!(all)); es.extend(unsigned_ints!(all)); es.extend(signed_fixed!(all)); es.extend(unsigned_fixed!(all));
        let mut xs: Vec<Vec<Extra>> = floats!(extra_dec);
        xs.extend(signed_ints!(extra)); xs.extend(unsigned_ints!(extra)); xs.extend(signed_fixed!(extra)); xs.extend(unsigned_fixed!(extra));
        let n = ctx.n(5000, 100_000);
        let mut jobs: Vec<Job> = vec![];
        for (es, xs) in es.into_iter().zip(xs) {
            jobs.push(Box::new(move |w: &mut W| {
                let ty = es[0].ty;
                let k = match ty.kind { Kind::F32 | Kind::F64 => 10, Kind::Int => 5, _ => 1 };
                if ty.bits == 8 {
                    let plain = Spec { plus: false, alt: false, prec: None, width: None };
                    for e in &es { for r in gen::all_raw(&ty) { judge(w, e, &[r, ty.rmax() - (r & 15), 0, 0], plain, true); judge(w, e, &[1, r, 0, 0], plain, true); } }
                }
                for e in &es {
                    for _ in 0..n * k {
                        let mut r = w.rng.clone();
                        let a = [arg(&ty, &mut r), arg(&ty, &mut r), 0, 0];
                        let s = Spec { plus: r.chance(2), alt: r.chance(3), prec: if r.chance(2) { Some(if r.chance(8) { gen::int_literal(&mut r, 300).max(0) } else { r.below(12) as i64 } as usize) } else { None }, width: if r.chance(3) { Some(if r.chance(8) { gen::int_literal(&mut r, 300).max(0) } else { r.below(40) as i64 } as usize) } else { None } };
                        w.rng = r;
                        judge(w, e, &a, s, false);
                    }
                    w.op_count(e.name, n * k);
                }
                for e in &xs {
                    for _ in 0..n * k {
                        let mut r = w.rng.clone();
                        let a = [arg(&ty, &mut r), arg(&ty, &mut r), 0, 0];
                        let cut = r.below(100) as usize;
                        w.rng = r;
                        judge_extra(w, e, &a, cut);
                    }
                    w.op_count("Polar Display, reading back, short writers", n * k);
                }
            }));
        }
        jobs
    })
}
