//! Driver: the scalar interface (C33).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
#[path = "../elem.rs"]
mod elem;
use cglinalg_numeric::{SimdScalarBounded, SimdScalarCmp, SimdScalarFloat, SimdScalarSigned};
use common::*;
use elem::*;
use std::f64::consts::PI;

/// bits of the odd part, ones in it, exponent, sign
fn parts_i(x: i128) -> Vec<i64> {
    let (s, mut m) = (if x < 0 { -1 } else { 1 }, x.unsigned_abs());
    let mut e = 0;
    while m != 0 && m % 2 == 0 { m /= 2; e += 1 }
    vec![128 - m.leading_zeros() as i64, m.count_ones() as i64, e, s]
}
fn parts_f(x: f64) -> Vec<i64> {
    let mut e = 0;
    let mut m = x.abs();
    if !m.is_finite() || m == 0.0 { return vec![] }
    while m != m.trunc() { m *= 2.0; e -= 1 }
    while m >= 2f64.powi(60) { m /= 2.0; e += 1 }
    let mut p = parts_i(m as i128);
    p[2] += e;
    p[3] = if x < 0.0 { -1 } else { 1 };
    p
}
fn digits(x: f64) -> Raw {
    let v = (x * 1e14).round() as i64;
    Raw(vec![v / 10_000_000, v % 10_000_000])
}
fn flt<S: Fl + SimdScalarCmp>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    for k in -60..=60i64 {
        let x = S::of(k as f64 / 8.0);
        let d = [k];
        rec.rawcall("sfn", "floor", "", n, &d, &[], || x.floor());
        rec.rawcall("sfn", "ceil", "", n, &d, &[], || x.ceil());
        rec.rawcall("sfn", "trunc", "", n, &d, &[], || x.trunc());
        rec.rawcall("sfn", "round", "", n, &d, &[], || x.round());
        rec.rawcall("sfn", "fract", "", n, &d, &[], || x.fract() * S::of(8.0));
    }
    for _ in 0..rec.iters(40, 4000) {
        rec.next();
        let k = rec.rng.int(-2_000_000, 2_000_000);
        let x = S::of(k as f64 / 8.0);
        let d = [k];
        rec.rawcall("sfn", "floor", "", n, &d, &[], || x.floor());
        rec.rawcall("sfn", "ceil", "", n, &d, &[], || x.ceil());
        rec.rawcall("sfn", "trunc", "", n, &d, &[], || x.trunc());
        rec.rawcall("sfn", "round", "", n, &d, &[], || x.round());
        rec.rawcall("sfn", "fract", "", n, &d, &[], || x.fract() * S::of(8.0));
        // polynomials and roots
        let v = gen(&mut rec.rng, 3, 9, S::DEN, true);
        let (x, y, z) = (S::ofq(v[0]), S::ofq(v[1]), S::ofq(v[2]));
        rec.call("sfn", "muladd", "", n, &[], &[rr(&v)], 0, || x.mul_add(y, z));
        let sg0 = |p: bool| if p { 1 } else { 0 };
        rec.call("sfn", "hypot", "", n, &[sg0(v[0].0 != 0 || v[1].0 != 0)], &[rr(&v[..2])], 0, || sqd(x.hypot(y)));
        let a = Q::red(v[0].0.abs(), v[0].1);
        rec.call("sfn", "sqrt", "", n, &[sg0(a.0 != 0)], &[vec![a.r()]], 0, || sqd(S::ofq(a).sqrt()));
        rec.call("sfn", "cbrt", "", n, &[v[1].0.signum()], &[vec![v[1].r()]], 0, || { let c = y.cbrt(); Raw(vec![(c * c * c).res(), sg(c)]) });
        if v[0].0 != 0 {
            hint(v[0].0);
            rec.call("sfn", "recip", "", n, &[], &[vec![v[0].r()]], 0, || x.recip());
            hint(1);
            let w = if fine { v[0] } else { *rec.rng.pick(&[Q(1, 2), q(2), q(-2), q(3), Q(3, 2), q(1), q(-1), Q(-1, 2)]) };
            let x = S::ofq(w);
            let k = rec.rng.int(if fine { -4 } else { -2 }, if fine { 5 } else { 3 });
            hint(if k < 0 { w.0.pow(-k as u32) } else { w.1.pow(k as u32) });
            rec.call("sfn", "pow", "powi", n, &[k], &[vec![w.r()]], 0, || x.powi(k as i32));
            let p = Q(w.0.abs(), w.1);
            rec.call("sfn", "pow", "powf", n, &[k], &[vec![p.r()]], 0, || S::ofq(p).powf(S::of(k as f64)));
            hint(1);
            if fine {
                let m = 1 + rec.rng.below(4) as i32;
                rec.call("sfn", "root", "powf", n, &[], &[vec![p.r()]], 0, || S::of(p.f().powi(m)).powf(S::of(1.0 / m as f64)));
            }
        }
        // exponentials: multiples of the logarithm of b
        let b = if fine { *rec.rng.pick(&[q(2), q(3), Q(3, 2), q(5), Q(4, 3), q(10)]) } else { *rec.rng.pick(&[q(2), q(3), Q(3, 2)]) };
        let m = if !fine { 2 } else if b.0 == 10 || b.0 == 5 { 2 } else { 3 };
        let k = rec.rng.int(-m, m);
        let l = b.f().ln();
        let (x, bk) = (S::of(k as f64 * l), b.f().powi(k as i32));
        let (sh, ch) = ((bk - 1.0 / bk) / 2.0, (bk + 1.0 / bk) / 2.0);
        let (d, a) = ([k], [vec![b.r()]]);
        let ka = k.unsigned_abs() as u32;
        hint(if k < 0 { b.0.pow(ka) } else { b.1.pow(ka) });
        rec.call("sfn", "exp", "", n, &d, &a, 0, || x.exp());
        rec.call("sfn", "expm1", "", n, &d, &a, 0, || x.exp_m1());
        hint(2 * (b.0 * b.1).pow(ka));
        rec.call("sfn", "sinh", "", n, &d, &a, 0, || x.sinh());
        rec.call("sfn", "cosh", "", n, &d, &a, 0, || x.cosh());
        rec.call("sfn", "sinhcosh", "", n, &d, &a, 0, || x.sinh_cosh());
        hint(b.0.pow(2 * ka) + b.1.pow(2 * ka));
        if fine || k.abs() < 2 || b.0 == 2 { rec.call("sfn", "tanh", "", n, &d, &a, 0, || x.tanh()); }
        hint(1);
        let obs = |y: S| S::of(y.to() / l);
        rec.call("sfn", "log", "ln", n, &d, &a, 0, || obs(S::of(bk).ln()));
        rec.call("sfn", "log", "ln_1p", n, &d, &a, 0, || obs(S::of(bk - 1.0).ln_1p()));
        rec.call("sfn", "log", "log", n, &d, &a, 0, || S::of(bk).log(S::of(b.f())));
        rec.call("sfn", "log", "asinh", n, &d, &a, 0, || obs(S::of(sh).asinh()));
        if k != 0 { rec.call("sfn", "abslog", "acosh", n, &d, &a, 0, || obs(S::of(ch).acosh())); }
        if fine { rec.call("sfn", "log", "atanh", n, &d, &a, 0, || obs(S::of(sh / ch).atanh())); }
        let k = rec.rng.int(if fine { -30 } else { -10 }, if fine { 30 } else { 10 });
        rec.call("sfn", "log", "log2", n, &[k], &[vec![2]], 0, || S::of(2f64.powi(k as i32)).log2());
        let j = rec.rng.int(-4, 4);
        rec.call("sfn", "log", "log10", n, &[j], &[vec![10]], 0, || S::of(10f64.powi(j as i32)).log10());
        hint(if j < 0 { 1 << -j } else { 1 });
        rec.call("sfn", "exp", "exp2", n, &[j], &[vec![2]], 0, || S::of(j as f64).exp2());
        hint(1);
        // circular functions at rational points of the circle
        let p = Pt::new(&mut rec.rng, fine);
        let a = [vec![p.c.r(), p.s.r()]];
        let turn = if fine { rec.rng.int(-3, 3) as f64 * 2.0 * PI } else { 0.0 };
        let th = S::of(p.th + turn);
        rec.call("sfn", "sin", "", n, &[], &a, 0, || th.sin());
        rec.call("sfn", "cos", "", n, &[], &a, 0, || th.cos());
        rec.call("sfn", "sincos", "", n, &[], &a, 0, || th.sin_cos());
        if p.c.0 != 0 { rec.call("sfn", "tan", "", n, &[], &a, 0, || th.tan()); }
        let ang = |y: S, lo: f64, hi: f64| Raw(vec![S::of(y.to().cos()).res(), S::of(y.to().sin()).res(), in_(y, lo, hi)]);
        let rho = *rec.rng.pick(&[0.5, 1.0, 2.0, 3.0, 10.0]);
        rec.call("sfn", "angle", "atan2", n, &[], &a, 0, || ang(S::of(rho * p.s.f()).atan2(S::of(rho * p.c.f())), -PI, PI));
        if p.c.0 >= 0 { rec.call("sfn", "angle", "asin", n, &[], &a, 0, || ang(S::of(p.s.f()).asin(), -PI / 2.0, PI / 2.0)); }
        if p.s.0 >= 0 { rec.call("sfn", "angle", "acos", n, &[], &a, 0, || ang(S::of(p.c.f()).acos(), 0.0, PI)); }
        if p.c.0 > 0 { rec.call("sfn", "angle", "atan", n, &[], &a, 0, || ang(S::of(p.s.f() / p.c.f()).atan(), -PI / 2.0, PI / 2.0)); }
    }
    let c: [(&str, S); 17] = [("pi", S::pi()), ("two_pi", S::two_pi()), ("frac_pi_2", S::frac_pi_2()), ("frac_pi_3", S::frac_pi_3()), ("frac_pi_4", S::frac_pi_4()),
        ("frac_pi_6", S::frac_pi_6()), ("frac_pi_8", S::frac_pi_8()), ("frac_1_pi", S::frac_1_pi()), ("frac_2_pi", S::frac_2_pi()), ("frac_2_sqrt_pi", S::frac_2_sqrt_pi()),
        ("e", S::e()), ("log2_e", S::log2_e()), ("log10_e", S::log10_e()), ("ln_2", S::ln_2()), ("ln_10", S::ln_10()), ("sqrt_2", S::sqrt_2()), ("frac_1_sqrt_2", S::frac_1_sqrt_2())];
    for (v, x) in c { rec.call("sfn", "const", v, n, &[], &[], 0, || digits(x.to())); }
    rec.call("sfn", "maxval", "", n, &[0], &[], 0, || Raw(parts_f(S::max_value().to())));
    rec.call("sfn", "minval", "", n, &[0], &[], 0, || Raw(parts_f(S::min_value().to())));
    rec.call("sfn", "eps", "machine", n, &[], &[], 0, || Raw(parts_f(S::machine_epsilon().to())));
    rec.call("sfn", "maxulps", "", n, &[], &[], 0, || Raw(vec![if n == "f64" { <f64 as SimdScalarCmp>::default_max_ulps() as i64 } else { <f32 as SimdScalarCmp>::default_max_ulps() as i64 }]));
    rec.call("sfn", "eps", "default", n, &[], &[], 0, || Raw(parts_f(<S as SimdScalarCmp>::default_epsilon().to())));
    rec.call("sfn", "minpos", "", n, &[], &[], 0, || Raw(parts_f(S::min_positive_value().to())));
    let b = |x: S| Raw(vec![SimdScalarFloat::is_nan(x) as i64, SimdScalarFloat::is_infinite(x) as i64, SimdScalarFloat::is_finite(x) as i64, SimdScalarFloat::is_normal(x) as i64,
        SimdScalarFloat::is_subnormal(x) as i64, SimdScalarSigned::is_sign_positive(x) as i64, SimdScalarSigned::is_sign_negative(x) as i64]);
    let mp = S::min_positive_value();
    for (v, x) in [("nan", S::nan()), ("nan", S::zero() / S::zero()), ("inf", S::infinity()), ("ninf", S::neg_infinity()), ("inf", S::one() / S::zero()), ("zero", S::zero()), ("nzero", S::neg_zero()),
        ("nzero", -S::zero()), ("sub", mp / S::of(2.0)), ("nsub", -mp / S::of(4.0)), ("norm", mp), ("nnorm", -mp), ("norm", S::one()), ("norm", S::max_value()), ("nnorm", S::min_value()), ("nnorm", S::of(-3.5))] {
        rec.call("sfn", "class", v, n, &[], &[], 0, || b(x));
    }
}
fn c33(rec: &mut Rec) {
    for _ in 0..rec.iters(4, 4) {
        flt::<f64>(rec);
        flt::<f32>(rec);
    }
    macro_rules! i { ($($t:ident $b:literal)*) => {$(
        rec.call("sfn", "maxval", "", stringify!($t), &[$b], &[], 0, || Raw(parts_i(<$t as SimdScalarBounded>::max_value() as i128)));
        rec.call("sfn", "minval", "", stringify!($t), &[$b], &[], 0, || Raw(parts_i(<$t as SimdScalarBounded>::min_value() as i128)));
    )*} }
    i!(i8 8 i16 16 i32 32 i64 64 i128 128 isize 64);
}
fn main() {
    drive(&[("C33", c33)]);
}
