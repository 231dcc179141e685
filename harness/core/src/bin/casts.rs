//! Driver: numeric conversions and the scalar layer (C26).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
use cglinalg_core::*;
use cglinalg_numeric::{SimdScalar, SimdScalarBounded, SimdScalarFloat, SimdScalarCmp, SimdScalarOrd, SimdScalarSigned};
use common::*;

/// sign, magnitude of the integer part, eighths; or NaN / infinities
#[derive(Clone, Copy, PartialEq, Debug)]
struct Num { s: i64, m: u128, e: i64 }
const NANN: Num = Num { s: 2, m: 0, e: 0 };
impl Num {
    fn enc(self) -> Vec<i64> {
        let mut o = vec![self.s];
        for i in (0..9).rev() { o.push((self.m.checked_shr(15 * i).unwrap_or(0) & 0x7fff) as i64) }
        o.push(self.e);
        o
    }
    fn new(neg: bool, m: u128, e: i64) -> Num { Num { s: if m == 0 && e == 0 { 0 } else if neg { -1 } else { 1 }, m, e } }
}
trait Ty: Sc + SimdScalar + PartialEq {
    const BITS: i64;
    const KIND: i64;
    fn of(x: Num) -> Option<Self>;
    fn num(self) -> Num;
}
macro_rules! ty_int { ($($t:ident $k:expr),*) => {$( impl Ty for $t {
    const BITS: i64 = <$t>::BITS as i64;
    const KIND: i64 = $k;
    fn of(x: Num) -> Option<$t> {
        if x.s > 1 || x.e != 0 { return None }
        if x.s >= 0 { <$t>::try_from(x.m).ok() } else if $k == 0 { None } else if x.m == (<$t>::MIN as i128).unsigned_abs() { Some(<$t>::MIN) } else { <$t>::try_from(x.m).ok().map(|y| (0 as $t).wrapping_sub(y)) }
    }
    fn num(self) -> Num { let neg = $k == 1 && self < (0 as $t); Num::new(neg, if neg { (self as i128).unsigned_abs() } else { self as u128 }, 0) }
} )*} }
ty_int!(i8 1, i16 1, i32 1, i64 1, i128 1, isize 1, u8 0, u16 0, u32 0, u64 0, u128 0, usize 0);
macro_rules! ty_f { ($($t:ident),*) => {$( impl Ty for $t {
    const BITS: i64 = 64;
    const KIND: i64 = 2;
    fn of(x: Num) -> Option<$t> {
        match x.s { 2 => return Some($t::NAN), 3 => return Some($t::INFINITY), 4 => return Some($t::NEG_INFINITY), _ => {} }
        if x.m > 1 << 126 { return None }
        let f = x.m as $t + x.e as $t / 8.0;
        let f = if x.s < 0 { -f } else { f };
        if f.num() == x { Some(f) } else { None }
    }
    fn num(self) -> Num {
        if self.is_nan() { return NANN }
        if self.is_infinite() { return Num { s: if self > 0.0 { 3 } else { 4 }, m: 0, e: 0 } }
        let e = self.abs().fract() * 8.0;
        if e != e.trunc() { return Num { s: 9, m: 0, e: 0 } }
        Num::new(self < 0.0, self.abs().trunc() as u128, e as i64)
    }
} )*} }
ty_f!(f32, f64);

fn number(r: &mut Rng, small: bool) -> Num {
    let neg = r.chance(2);
    match if small { 9 } else { r.below(12) } {
        0..=4 => {
            let k = *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 24, 53]);
            let b = 1u128 << k;
            let m = match r.below(4) { 0 => b, 1 => b - 1, 2 => b + 1, _ => b - r.int(0, 3) as u128 };
            Num::new(neg, m, if r.chance(4) { r.int(0, 7) } else { 0 })
        }
        5 => Num::new(neg, 1u128 << r.below(127), 0),
        6 => *r.pick(&[NANN, Num { s: 3, m: 0, e: 0 }, Num { s: 4, m: 0, e: 0 }, Num { s: 0, m: 0, e: 0 }]),
        7 => Num::new(neg, (r.u() as u128) << 64 | r.u() as u128, 0),
        8 => Num::new(neg, r.u() as u128 & 0xffff_ffff, 0),
        _ => Num::new(neg && !r.chance(3), r.below(120) as u128, if r.chance(3) { r.int(0, 7) } else { 0 }),
    }
}
/// a number `S` holds exactly and, for floating-point targets, `T` too
fn fit<S: Ty, T: Ty>(r: &mut Rng, small: bool) -> (Num, S) {
    loop {
        let x = number(r, small);
        if let Some(y) = S::of(x) {
            if T::KIND != 2 || T::of(x).is_some() { return (x, y) }
        }
    }
}
/// `n` components: all small, or one that may be out of range
fn fits<S: Ty, T: Ty, const N: usize>(r: &mut Rng) -> (Vec<Vec<i64>>, [S; N]) {
    let one = r.below(N + 2);
    let v: Vec<(Num, S)> = (0..N).map(|i| fit::<S, T>(r, i != one && one <= N)).collect();
    (v.iter().map(|x| x.0.enc()).collect(), core::array::from_fn(|i| v[i].1))
}
fn encs<T: Ty>(v: impl IntoIterator<Item = T>) -> Raw { Raw(v.into_iter().flat_map(|x| x.num().enc()).collect()) }

fn scalar<S: Ty, T: Ty>(rec: &mut Rec) {
    let d = [T::BITS, T::KIND];
    let n = S::NAME;
    let (a, x) = fits::<S, T, 1>(&mut rec.rng);
    rec.call("cst", "try", T::NAME, n, &d, &a, 0, || cglinalg_numeric::try_cast::<S, T>(x[0]).map(|y| encs([y])));
    rec.call("cst", "must", T::NAME, n, &d, &a, 0, || encs([cglinalg_numeric::cast::<S, T>(x[0])]));
    let (a, x) = fits::<S, T, 3>(&mut rec.rng);
    rec.call("cst", "try", T::NAME, n, &d, &a, 0, || Vector3::<S>::from(x).try_cast::<T>().map(|y| encs([y[0], y[1], y[2]])));
}
fn vp<S: Ty, T: Ty, const N: usize>(rec: &mut Rec) {
    let d = [T::BITS, T::KIND];
    let (a, x) = fits::<S, T, N>(&mut rec.rng);
    rec.call("cst", "try", "v", S::NAME, &d, &a, 0, || Vector::<S, N>::from(x).try_cast::<T>().map(|y| encs((0..N).map(|i| y[i]))));
    rec.call("cst", "try", "p", S::NAME, &d, &a, 0, || Point::<S, N>::from(x).try_cast::<T>().map(|y| encs((0..N).map(|i| y[i]))));
}
fn mt<S: Ty, T: Ty, const R: usize, const C: usize, const RC: usize>(rec: &mut Rec) {
    let d = [T::BITS, T::KIND];
    let (a, x) = fits::<S, T, RC>(&mut rec.rng);
    let m: Matrix<S, R, C> = Matrix::from(core::array::from_fn::<[S; R], C, _>(|c| core::array::from_fn(|r| x[c * R + r])));
    rec.call("cst", "try", "m", S::NAME, &d, &a, 0, || m.try_cast::<T>().map(|y| encs((0..RC).map(|i| y[i / R][i % R]))));
}
fn containers<S: Ty, T: Ty>(rec: &mut Rec) {
    vp::<S, T, 1>(rec);
    vp::<S, T, 2>(rec);
    vp::<S, T, 3>(rec);
    vp::<S, T, 4>(rec);
    mt::<S, T, 1, 1, 1>(rec);
    mt::<S, T, 2, 2, 4>(rec);
    mt::<S, T, 3, 3, 9>(rec);
    mt::<S, T, 4, 4, 16>(rec);
    mt::<S, T, 2, 3, 6>(rec);
    mt::<S, T, 3, 2, 6>(rec);
    mt::<S, T, 2, 4, 8>(rec);
    mt::<S, T, 4, 2, 8>(rec);
    mt::<S, T, 3, 4, 12>(rec);
    mt::<S, T, 4, 3, 12>(rec);
    let d = [T::BITS, T::KIND];
    let (a, x) = fits::<S, T, 4>(&mut rec.rng);
    rec.call("cst", "try", "q", S::NAME, &d, &a, 0, || Quaternion::<S>::new(x[0], x[1], x[2], x[3]).try_cast::<T>().map(|y| { let v = y.vector(); encs([y.scalar(), v[0], v[1], v[2]]) }));
    let (a, x) = fits::<S, T, 2>(&mut rec.rng);
    rec.call("cst", "try", "c", S::NAME, &d, &a, 0, || Complex::<S>::new(x[0], x[1]).try_cast::<T>().map(|y| encs([y.real(), y.imaginary()])));
}
macro_rules! to_all { ($rec:expr, $S:ty; $($T:ty)*) => { $( scalar::<$S, $T>($rec); )* } }
macro_rules! all_pairs { ($rec:expr; $($S:ty)*) => { $( to_all!($rec, $S; i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64); )* } }

fn dist<F: Flt>(x: F, y: F) -> Raw { F::dist(x, y) }
macro_rules! un { ($rec:expr, $n:expr, $F:ident, $x:expr; $($f:ident)*) => {$( $rec.call("cst", "prim", stringify!($f), $n, &[], &[], 0, || dist(SimdScalarFloat::$f($x), $F::$f($x))); )*} }
macro_rules! bi { ($rec:expr, $n:expr, $F:ident, $x:expr, $y:expr; $($f:ident)*) => {$( $rec.call("cst", "prim", stringify!($f), $n, &[], &[], 0, || dist(SimdScalarFloat::$f($x, $y), $F::$f($x, $y))); )*} }
macro_rules! fl { ($rec:expr, $n:expr, $F:ident, $x:expr; $($f:ident)*) => {$( $rec.call("cst", "flag", stringify!($f), $n, &[], &[vec![$F::$f($x) as i64]], 0, || SimdScalarFloat::$f($x)); )*} }
macro_rules! co { ($rec:expr, $n:expr, $F:ident; $($f:ident $v:expr),*) => {$( $rec.call("cst", "prim", stringify!($f), $n, &[], &[], 0, || dist(<$F as SimdScalarFloat>::$f(), $v)); )*} }
trait Flt: Copy { fn dist(x: Self, y: Self) -> Raw; }
macro_rules! flt { ($F:ident, $I:ident) => { impl Flt for $F {
    fn dist(x: $F, y: $F) -> Raw {
        fn key(x: $F) -> i128 { let b = x.to_bits() as $I; if b < 0 { -((b & $I::MAX) as i128) } else { b as i128 } }
        if x.is_nan() || y.is_nan() { return Raw(vec![if x.is_nan() && y.is_nan() { 0 } else { -1 }]) }
        if (x == 0.0 && y == 0.0) && (x.is_sign_negative() != y.is_sign_negative()) { return Raw(vec![-2]) }
        Raw(vec![Ord::min((key(x) - key(y)).abs(), 1_000_000) as i64])
    }
} } }
flt!(f64, i64);
flt!(f32, i32);
macro_rules! prims { ($name:ident, $F:ident) => {
fn $name(rec: &mut Rec) {
    let n = stringify!($F);
    let mut r = rec.rng.clone();
    let mut val = |wide: bool| -> $F {
        let base = r.int(-4000, 4000) as $F / 64.0;
        match r.below(if wide { 12 } else { 8 }) {
            0 => 0.0, 1 => -0.0, 2 => base / 64.0, 3 => base.fract(), 4 => base.round(), 5 => base.round() + 0.5,
            8 => $F::NAN, 9 => $F::INFINITY, 10 => $F::NEG_INFINITY, 11 => $F::MIN_POSITIVE / 2.0,
            _ => base,
        }
    };
    let (x, y, z) = (val(true), val(true), val(false));
    let k = (z as i32) % 7;
    rec.rng = r;
    un!(rec, n, $F, x; floor ceil round trunc fract recip sin cos tan asin acos atan sinh cosh tanh asinh atanh log2 log10 ln ln_1p sqrt cbrt exp exp2 exp_m1);
    // inverse hyperbolic cosine: only where it is real
    if x >= 1.0 { un!(rec, n, $F, x; acosh); }
    bi!(rec, n, $F, x, y; hypot atan2 log powf);
    rec.call("cst", "prim", "mul_add", n, &[], &[], 0, || dist(SimdScalarFloat::mul_add(x, y, z), $F::mul_add(x, y, z)));
    rec.call("cst", "prim", "powi", n, &[], &[], 0, || dist(SimdScalarFloat::powi(x, k), $F::powi(x, k)));
    rec.call("cst", "prim", "sin_cos.0", n, &[], &[], 0, || dist(SimdScalarFloat::sin_cos(x).0, x.sin()));
    rec.call("cst", "prim", "sin_cos.1", n, &[], &[], 0, || dist(SimdScalarFloat::sin_cos(x).1, x.cos()));
    rec.call("cst", "prim", "sinh_cosh.0", n, &[], &[], 0, || dist(SimdScalarFloat::sinh_cosh(x).0, x.sinh()));
    rec.call("cst", "prim", "sinh_cosh.1", n, &[], &[], 0, || dist(SimdScalarFloat::sinh_cosh(x).1, x.cosh()));
    rec.call("cst", "prim", "abs", n, &[], &[], 0, || dist(SimdScalarSigned::abs(x), $F::abs(x)));
    rec.call("cst", "prim", "signum", n, &[], &[], 0, || dist(SimdScalarSigned::signum(x), $F::signum(x)));
    rec.call("cst", "prim", "copysign", n, &[], &[], 0, || dist(SimdScalarSigned::copysign(x, y), $F::copysign(x, y)));
    if x != y {
        rec.call("cst", "prim", "max", n, &[], &[], 0, || dist(SimdScalarOrd::max(x, y), $F::max(x, y)));
        rec.call("cst", "prim", "min", n, &[], &[], 0, || dist(SimdScalarOrd::min(x, y), $F::min(x, y)));
    }
    fl!(rec, n, $F, x; is_finite is_infinite is_nan is_normal is_subnormal);
    rec.call("cst", "flag", "is_sign_positive", n, &[], &[vec![$F::is_sign_positive(x) as i64]], 0, || SimdScalarSigned::is_sign_positive(x));
    rec.call("cst", "flag", "is_sign_negative", n, &[], &[vec![$F::is_sign_negative(x) as i64]], 0, || SimdScalarSigned::is_sign_negative(x));
    use std::$F::consts as c;
    co!(rec, n, $F; pi c::PI, two_pi c::TAU, frac_pi_2 c::FRAC_PI_2, frac_pi_3 c::FRAC_PI_3, frac_pi_4 c::FRAC_PI_4, frac_pi_6 c::FRAC_PI_6, frac_pi_8 c::FRAC_PI_8,
        frac_1_pi c::FRAC_1_PI, frac_2_pi c::FRAC_2_PI, frac_2_sqrt_pi c::FRAC_2_SQRT_PI, e c::E, log2_e c::LOG2_E, log10_e c::LOG10_E, ln_2 c::LN_2, ln_10 c::LN_10,
        sqrt_2 c::SQRT_2, frac_1_sqrt_2 c::FRAC_1_SQRT_2, nan $F::NAN, infinity $F::INFINITY, neg_infinity $F::NEG_INFINITY, neg_zero -0.0, machine_epsilon $F::EPSILON,
        min_positive_value $F::MIN_POSITIVE);
    rec.call("cst", "prim", "default_epsilon", n, &[], &[], 0, || dist(<$F as SimdScalarCmp>::default_epsilon(), $F::EPSILON));
    rec.call("cst", "prim", "min_value", n, &[], &[], 0, || dist(<$F as SimdScalarBounded>::min_value(), $F::MIN));
    rec.call("cst", "prim", "max_value", n, &[], &[], 0, || dist(<$F as SimdScalarBounded>::max_value(), $F::MAX));
}}}

prims!(prims64, f64);
prims!(prims32, f32);
macro_rules! bounds { ($rec:expr; $($t:ty)*) => {$(
    $rec.call("cst", "min", "b", <$t as Sc>::NAME, &[<$t as Ty>::BITS, <$t as Ty>::KIND], &[], 0, || encs([<$t as SimdScalarBounded>::min_value()]));
    $rec.call("cst", "max", "b", <$t as Sc>::NAME, &[<$t as Ty>::BITS, <$t as Ty>::KIND], &[], 0, || encs([<$t as SimdScalarBounded>::max_value()]));
)*} }
fn main() {
    drive(&[("C26", |rec| {
        bounds!(rec; i8 i16 i32 i64 i128 isize);
        for _ in 0..rec.iters(60, 1200) {
            rec.next();
            all_pairs!(rec; i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);
            for _ in 0..4 {
                containers::<f64, i32>(rec);
                containers::<f64, u8>(rec);
                containers::<f64, f32>(rec);
                containers::<f32, i64>(rec);
                containers::<i32, u16>(rec);
                containers::<i64, i32>(rec);
                containers::<u64, i8>(rec);
                containers::<i16, f64>(rec);
            }
            prims64(rec);
            prims32(rec);
        }
    })]);
}
