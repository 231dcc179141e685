//! Drivers: complex functions at infinities and NaN (C30), predicates (C32).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
#[path = "../elem.rs"]
mod elem;
use cglinalg_core::*;
use cglinalg_numeric::{SimdScalar, SimdScalarFloat, SimdScalarSigned};
use cglinalg_trigonometry::*;
use common::*;
use elem::*;
use std::f64::consts::PI;

// ------------------------------------------------------------------- C30
/// class of an argument
fn cls(x: f64) -> i64 {
    if x.is_nan() { 3 } else if x.is_infinite() { if x > 0.0 { 2 } else { -2 } } else if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 }
}
/// class of a result
fn rcl<S: Fl>(x: S) -> i64 {
    let v = x.to();
    if v.is_nan() { return 99 }
    if v.is_infinite() { return if v > 0.0 { 50 } else { -50 } }
    let tol = S::TOL / 10.0;
    if v == 0.0 { return 0 }
    let s = if v > 0.0 { 1 } else { -1 };
    for k in 1..=4 {
        if (v.abs() - k as f64 * PI / 4.0).abs() < tol { return s * k }
    }
    if v.abs() == 1.0 { return s * 10 }
    60
}
fn sgn(x: f64) -> i64 { if !x.is_finite() { 0 } else if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 } }
fn limits<S: Fl>(rec: &mut Rec, x: f64, y: f64) {
    let z: Complex<S> = mk(x, y);
    let (x, y) = (z.real().to(), z.imaginary().to());
    let a = [vec![cls(x), cls(y)], vec![sgn(x.cos()), sgn(x.sin()), sgn(y.cos()), sgn(y.sin())]];
    let fs: [(&str, fn(Complex<S>) -> Complex<S>); 12] = [
        ("cos", Complex::cos), ("sin", Complex::sin), ("tan", Complex::tan), ("acos", Complex::acos), ("asin", Complex::asin), ("atan", Complex::atan),
        ("cosh", Complex::cosh), ("sinh", Complex::sinh), ("tanh", Complex::tanh), ("acosh", Complex::acosh), ("asinh", Complex::asinh), ("atanh", Complex::atanh)];
    for (n, f) in fs {
        if x.is_finite() && y.is_finite() { continue }
        rec.call("spc", "limit", n, S::NAME, &[], &a, 0, || { let w = f(z); Raw(vec![rcl(w.real()), rcl(w.imaginary())]) });
    }
}
fn limits_all<S: Fl>(rec: &mut Rec) {
    let sp = [f64::NEG_INFINITY, f64::INFINITY, f64::NAN, 0.0, -0.0];
    let mut fin = vec![0.5, -0.5, 1.0, -1.0, 1.25, 2.5, -2.5, 4.0, 5.5, -4.0, -5.5, 2.0, -2.0, 1e-3, -1e-3, 20.0, -20.0, 1e-30];
    for _ in 0..rec.iters(30, 3000) {
        let v = rec.rng.int(-100000, 100000) as f64 / 1000.0;
        if v.sin().abs() > 0.01 && v.cos().abs() > 0.01 { fin.push(v) }
    }
    for &x in &sp { for &y in &sp { limits::<S>(rec, x, y) } }
    for &x in &sp { for &y in &fin { rec.next(); limits::<S>(rec, x, y); limits::<S>(rec, y, x) } }
    for s in [1.0, -1.0] {
        let z: Complex<S> = mk(s, 0.0);
        rec.call("spc", "pole", "atanh", S::NAME, &[], &[vec![s as i64]], 0, || { let w = z.atanh(); Raw(vec![rcl(w.real()), rcl(w.imaginary())]) });
        // atan(i s) = i atanh(s)
        let z: Complex<S> = mk(0.0, s);
        rec.call("spc", "pole", "atan", S::NAME, &[], &[vec![s as i64]], 0, || { let w = z.atan(); Raw(vec![rcl(w.imaginary()), rcl(w.real())]) });
    }
}
fn c30(rec: &mut Rec) {
    limits_all::<f64>(rec);
    limits_all::<f32>(rec);
}

// ------------------------------------------------------------------- C32
const PINF_: i64 = 1000001;
const NINF_: i64 = 1000002;
const NOTN: i64 = 1000003;
const TINY: i64 = 1000004;
/// small, yet far above rounding
const SLIGHT: i64 = 1000005;
trait El: Sc + SimdScalar { fn el(c: i64) -> Self; }
impl El for f64 { fn el(c: i64) -> f64 { match c { PINF_ => f64::INFINITY, NINF_ => f64::NEG_INFINITY, NOTN => f64::NAN, TINY => f64::from_bits(1), SLIGHT => 2f64.powi(-30), c => c as f64 } } }
impl El for f32 { fn el(c: i64) -> f32 { match c { PINF_ => f32::INFINITY, NINF_ => f32::NEG_INFINITY, NOTN => f32::NAN, TINY => f32::from_bits(1), SLIGHT => 2f32.powi(-14), c => c as f32 } } }
macro_rules! el_int { ($($t:ty)*) => {$( impl El for $t { fn el(c: i64) -> $t { <$t>::try_from(c).unwrap() } } )*} }
el_int!(i8 i32 i64 u8 u32);

trait Whole<S> { const LEN: usize; fn of(v: &[S]) -> Self; }
impl<S: El, const N: usize> Whole<S> for Vector<S, N> { const LEN: usize = N; fn of(v: &[S]) -> Self { Vector::from(core::array::from_fn::<S, N, _>(|i| v[i])) } }
impl<S: El, const N: usize> Whole<S> for Point<S, N> { const LEN: usize = N; fn of(v: &[S]) -> Self { Point::from(core::array::from_fn::<S, N, _>(|i| v[i])) } }
impl<S: El, const R: usize, const C: usize> Whole<S> for Matrix<S, R, C> {
    const LEN: usize = R * C;
    fn of(v: &[S]) -> Self { Matrix::from(core::array::from_fn::<[S; R], C, _>(|c| core::array::from_fn(|r| v[c * R + r]))) }
}
impl<S: El> Whole<S> for Quaternion<S> { const LEN: usize = 4; fn of(v: &[S]) -> Self { Quaternion::new(v[0], v[1], v[2], v[3]) } }
impl<S: El> Whole<S> for Complex<S> { const LEN: usize = 2; fn of(v: &[S]) -> Self { Complex::new(v[0], v[1]) } }
impl<S: El> Whole<S> for Radians<S> { const LEN: usize = 1; fn of(v: &[S]) -> Self { Radians(v[0]) } }
impl<S: El> Whole<S> for Degrees<S> { const LEN: usize = 1; fn of(v: &[S]) -> Self { Degrees(v[0]) } }
impl<S: El> Whole<S> for Euler<Radians<S>> { const LEN: usize = 3; fn of(v: &[S]) -> Self { Euler::new(Radians(v[0]), Radians(v[1]), Radians(v[2])) } }
impl<S: El> Whole<S> for Euler<Degrees<S>> { const LEN: usize = 3; fn of(v: &[S]) -> Self { Euler::new(Degrees(v[0]), Degrees(v[1]), Degrees(v[2])) } }

/// values around `base`: itself, and every position replaced by every candidate
fn around(rec: &mut Rec, base: &[i64], cand: &[i64], extra: usize) -> Vec<Vec<i64>> {
    let mut out = vec![base.to_vec()];
    for p in 0..base.len() {
        for &c in cand {
            let mut v = base.to_vec();
            v[p] = c;
            out.push(v);
        }
    }
    for _ in 0..extra {
        let mut v = base.to_vec();
        for _ in 0..2 + rec.rng.below(3) {
            let p = rec.rng.below(v.len());
            v[p] = *rec.rng.pick(cand);
        }
        out.push(v);
    }
    out
}
fn mkw<S: El, T: Whole<S>>(v: &[i64]) -> T { T::of(&v.iter().map(|c| S::el(*c)).collect::<Vec<S>>()) }
fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
struct Ctx<'a> { rec: &'a mut Rec, cand: Vec<i64>, extra: usize }
fn eqs<S: El, T: Whole<S> + PartialEq>(c: &mut Ctx, k: &str) {
    let base: Vec<i64> = (0..T::LEN).map(|_| c.rec.rng.int(0, 9)).collect();
    let other: Vec<i64> = (0..T::LEN).map(|_| c.rec.rng.int(0, 9)).collect();
    let n = S::NAME;
    let mut vs = around(c.rec, &base, &c.cand, c.extra);
    vs.push(other);
    // any permutation of the components is another value
    let mut sh = base.clone();
    for i in (1..sh.len()).rev() { let j = c.rec.rng.below(i + 1); sh.swap(i, j) }
    vs.push(sh);
    for w in &vs {
        let (x, y): (T, T) = (mkw(&base), mkw(w));
        let a = [base.clone(), w.clone()];
        c.rec.call("spc", "eq", k, n, &[], &a, 0, || x == y);
        c.rec.call("spc", "ne", k, n, &[], &a, 0, || x != y);
        let a = [w.clone(), w.clone()];
        c.rec.call("spc", "eq", k, n, &[], &a, 0, || { let z: T = mkw(w); y == z });
    }
}
fn hashes<S: El, T: Whole<S> + std::hash::Hash>(c: &mut Ctx, k: &str) {
    let base: Vec<i64> = (0..T::LEN).map(|_| c.rec.rng.int(0, 9)).collect();
    let (x, y): (T, T) = (mkw(&base), mkw(&base));
    c.rec.call("spc", "hash", k, S::NAME, &[], &[base.clone(), base.clone()], 0, || hash(&x) == hash(&y));
}
macro_rules! pred { ($c:expr, $S:ty, $T:ty, $k:expr, $o:expr, $d:expr, $base:expr, |$x:ident| $e:expr) => {{
    let base: Vec<i64> = $base;
    let cand = $c.cand.clone();
    for w in around($c.rec, &base, &cand, $c.extra) {
        let $x: $T = mkw::<$S, $T>(&w);
        $c.rec.call("spc", $o, $k, <$S>::NAME, $d, &[w.clone()], 0, || $e);
    }
}} }
fn rnd(c: &mut Ctx, n: usize) -> Vec<i64> { (0..n).map(|_| c.rec.rng.int(0, 9)).collect() }
macro_rules! each_shape { ($m:ident, $($x:tt)*) => {
    $m!(1, 1, $($x)*); $m!(1, 2, $($x)*); $m!(1, 3, $($x)*); $m!(1, 4, $($x)*); $m!(2, 1, $($x)*); $m!(2, 2, $($x)*); $m!(2, 3, $($x)*); $m!(2, 4, $($x)*);
    $m!(3, 1, $($x)*); $m!(3, 2, $($x)*); $m!(3, 3, $($x)*); $m!(3, 4, $($x)*); $m!(4, 1, $($x)*); $m!(4, 2, $($x)*); $m!(4, 3, $($x)*); $m!(4, 4, $($x)*);
} }
fn num<S: El>(c: &mut Ctx) {
    macro_rules! v { ($($n:literal)*) => {$(
        eqs::<S, Vector<S, $n>>(c, "v"); eqs::<S, Point<S, $n>>(c, "p");
        pred!(c, S, Vector<S, $n>, "v", "zero", &[], vec![0; $n], |x| x.is_zero());
        let b = rnd(c, $n);
        pred!(c, S, Vector<S, $n>, "v", "zero", &[], b, |x| x.is_zero());
    )*} }
    v!(1 2 3 4 5);
    macro_rules! m { ($r:literal, $cc:literal, $c:ident) => {
        eqs::<S, Matrix<S, $r, $cc>>($c, "m");
        pred!($c, S, Matrix<S, $r, $cc>, "m", "zero", &[], vec![0; $r * $cc], |x| x.is_zero());
    } }
    each_shape!(m, c);
    macro_rules! sq { ($($n:literal)*) => {$(
        let id: Vec<i64> = (0..$n * $n).map(|i| (i / $n == i % $n) as i64).collect();
        pred!(c, S, Matrix<S, $n, $n>, "m", "identity", &[$n], id, |x| x.is_identity());
    )*} }
    sq!(1 2 3 4);
    eqs::<S, Complex<S>>(c, "c"); eqs::<S, Quaternion<S>>(c, "q");
    eqs::<S, Radians<S>>(c, "rad"); eqs::<S, Degrees<S>>(c, "deg"); eqs::<S, Euler<Radians<S>>>(c, "eul");
}
fn sgnd<S: El + SimdScalarSigned>(c: &mut Ctx) {
    pred!(c, S, Quaternion<S>, "q", "zero", &[], vec![0; 4], |x| x.is_zero());
    pred!(c, S, Quaternion<S>, "q", "one", &[], vec![1, 0, 0, 0], |x| x.is_identity());
    for b in [vec![0, 3, 4, 5], vec![2, 0, 0, 0], vec![0, 0, 0, 0]] {
        pred!(c, S, Quaternion<S>, "qpure", "zeroat", &[1], b.clone(), |x| x.is_pure());
        pred!(c, S, Quaternion<S>, "qreal", "zeroat", &[2, 3, 4], b.clone(), |x| x.is_real());
    }
    pred!(c, S, Complex<S>, "c", "zero", &[], vec![0; 2], |x| x.is_zero());
    pred!(c, S, Complex<S>, "c", "one", &[], vec![1, 0], |x| x.is_identity());
    pred!(c, S, Complex<S>, "c", "one", &[], vec![1, 0], |x| x.is_one());
    for b in [vec![0, 3], vec![2, 0], vec![0, 0]] {
        pred!(c, S, Complex<S>, "creal", "zeroat", &[2], b.clone(), |x| x.is_real());
        pred!(c, S, Complex<S>, "cimag", "zeroat", &[1], b.clone(), |x| x.is_imaginary());
    }
}
fn flt<S: El + SimdScalarFloat>(c: &mut Ctx) {
    macro_rules! v { ($($n:literal)*) => {$(
        let b = rnd(c, $n);
        pred!(c, S, Vector<S, $n>, "v", "finite", &[], b, |x| x.is_finite());
    )*} }
    v!(1 2 3 4 5);
    macro_rules! m { ($r:literal, $cc:literal, $c:ident) => {
        let b = rnd($c, $r * $cc);
        pred!($c, S, Matrix<S, $r, $cc>, "m", "finite", &[], b, |x| x.is_finite());
    } }
    each_shape!(m, c);
    let b = rnd(c, 4);
    pred!(c, S, Quaternion<S>, "q", "finite", &[], b, |x| x.is_finite());
    let b = rnd(c, 2);
    pred!(c, S, Complex<S>, "c", "finite", &[], b.clone(), |x| x.is_finite());
    pred!(c, S, Complex<S>, "c", "nan", &[], b.clone(), |x| x.is_nan());
    pred!(c, S, Complex<S>, "c", "infinite", &[], b, |x| x.is_infinite());
    let b = rnd(c, 1);
    pred!(c, S, Radians<S>, "rad", "finite", &[], b.clone(), |x| x.is_finite());
    pred!(c, S, Degrees<S>, "deg", "finite", &[], b, |x| x.is_finite());
    pred!(c, S, Euler<Radians<S>>, "eul", "zero", &[], vec![0; 3], |x| x.is_zero());
    pred!(c, S, Euler<Degrees<S>>, "euldeg", "zero", &[], vec![0; 3], |x| x.is_zero());
    // the scalars themselves
    for x in [PINF_, NINF_, NOTN, TINY, 0, 1, -1, 1000] {
        let y = S::el(x);
        let a = [vec![x]];
        c.rec.call("spc", "finite", "s", S::NAME, &[], &a, 0, || SimdScalarFloat::is_finite(y));
        c.rec.call("spc", "nan", "s", S::NAME, &[], &a, 0, || SimdScalarFloat::is_nan(y));
        c.rec.call("spc", "infinite", "s", S::NAME, &[], &a, 0, || SimdScalarFloat::is_infinite(y));
    }
    // diagonal and symmetric allow for rounding, so nothing of that size here
    let cand = std::mem::replace(&mut c.cand, vec![0, 1, 2, -3, SLIGHT]);
    macro_rules! sq { ($($n:literal)*) => {$(
        for _ in 0..4 {
            let v = rnd(c, $n * $n);
            let dg: Vec<i64> = (0..$n * $n).map(|i| if i / $n == i % $n { v[i] } else { 0 }).collect();
            let sy: Vec<i64> = (0..$n * $n).map(|i| { let (x, y) = (i / $n, i % $n); v[Ord::min(x, y) * $n + Ord::max(x, y)] }).collect();
            pred!(c, S, Matrix<S, $n, $n>, "m", "diagonal", &[$n], dg.clone(), |x| x.is_diagonal());
            pred!(c, S, Matrix<S, $n, $n>, "m", "symmetric", &[$n], sy, |x| x.is_symmetric());
            pred!(c, S, Matrix<S, $n, $n>, "m", "symmetric", &[$n], dg, |x| x.is_symmetric());
        }
    )*} }
    sq!(1 2 3 4);
    c.cand = cand;
}
fn hsh<S: El + std::hash::Hash>(c: &mut Ctx) {
    hashes::<S, Vector<S, 3>>(c, "v"); hashes::<S, Point<S, 2>>(c, "p"); hashes::<S, Matrix<S, 2, 3>>(c, "m");
    hashes::<S, Quaternion<S>>(c, "q"); hashes::<S, Complex<S>>(c, "c");
}
fn c32(rec: &mut Rec) {
    for it in 0..rec.iters(2, 30) {
        rec.next();
        let extra = 6;
        let mut c = Ctx { rec, cand: vec![PINF_, NINF_, NOTN, TINY, 0, 1, -1], extra };
        num::<f64>(&mut c); sgnd::<f64>(&mut c); flt::<f64>(&mut c);
        c.rec.next();
        num::<f32>(&mut c); sgnd::<f32>(&mut c); flt::<f32>(&mut c);
        c.rec.next();
        c.cand = vec![0, 1, 2, 100];
        num::<u8>(&mut c);
        c.cand = vec![0, 1, -1, 100];
        num::<i8>(&mut c); sgnd::<i8>(&mut c);
        c.rec.next();
        num::<i32>(&mut c); sgnd::<i32>(&mut c);
        if it % 4 == 0 { num::<i64>(&mut c); sgnd::<i64>(&mut c); c.cand = vec![0, 1, 77]; num::<u32>(&mut c); }
        for _ in 0..8 { hsh::<i32>(&mut c); hsh::<u8>(&mut c); }
    }
}
fn main() {
    drive(&[("C30", c30), ("C32", c32)]);
}
