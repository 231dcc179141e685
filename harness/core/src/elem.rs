//! Points at which elementary functions take rational values, and how their
//! results are observed.
#![allow(dead_code)]
use crate::common::*;
use cglinalg_core::*;
use cglinalg_numeric::*;
use std::f64::consts::PI;


/// square root observed as (square, sign)
pub fn sqd<S: Sc + SimdScalarFloat>(x: S) -> Raw {
    Raw(vec![(x * x).res(), sg(x)])
}
pub fn sg<S: Sc + SimdScalarFloat>(x: S) -> i64 {
    if x > S::zero() { 1 } else if x < S::zero() { -1 } else if x == S::zero() { 0 } else { 9 }
}
/// rational points of the unit circle, by quadrant and on the axes
pub fn circle(r: &mut Rng, fine: bool) -> (i64, i64, i64) {
    let t = if fine { [(1, 2), (1, 3), (2, 3), (1, 4), (3, 4)] } else { [(1, 2), (1, 3), (1, 2), (1, 3), (1, 2)] };
    let (p, qq) = *r.pick(&t);
    let (mut c, mut s, h) = (qq * qq - p * p, 2 * p * qq, qq * qq + p * p);
    let g = gcd(gcd(c, s), h);
    let h = h / g;
    c /= g;
    s /= g;
    if r.chance(2) { (c, s) = (s, c) }
    if r.chance(6) { (c, s) = (h, 0) }
    if r.chance(10) { (c, s) = (0, h) }
    if r.chance(2) { c = -c }
    if r.chance(2) { s = -s }
    (c, s, h)
}
pub fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
pub struct Pt {
    pub rho: Q,
    pub c: Q,
    pub s: Q,
    pub th: f64,
}
impl Pt {
    pub fn new(r: &mut Rng, fine: bool) -> Pt {
        let (c, s, h) = circle(r, fine);
        let rho = if fine { *r.pick(&[Q(1, 4), Q(1, 3), Q(1, 2), Q(2, 3), Q(1, 1), Q(3, 2), Q(2, 1), Q(3, 1), Q(4, 1), Q(5, 1)]) } else { *r.pick(&[Q(1, 2), Q(1, 1), Q(2, 1)]) };
        let th = if s == 0 { if c > 0 { 0.0 } else { PI } } else { (s as f64).atan2(c as f64) };
        Pt { rho, c: Q(c, h), s: Q(s, h), th }
    }
    pub fn arg(&self) -> Vec<i64> { vec![self.rho.r(), self.c.r(), self.s.r()] }
    /// 1/rho, conjugate point
    pub fn val(&self) -> (f64, f64) { (self.rho.f() * self.c.f(), self.rho.f() * self.s.f()) }
}
pub trait Fl: Sc + SimdScalarFloat { const TOL: f64; fn of(x: f64) -> Self; fn to(self) -> f64; }
impl Fl for f64 { const TOL: f64 = 1e-9; fn of(x: f64) -> f64 { x } fn to(self) -> f64 { self } }
impl Fl for f32 { const TOL: f64 = 1e-4; fn of(x: f64) -> f32 { x as f32 } fn to(self) -> f64 { self as f64 } }
pub fn mk<S: Fl>(re: f64, im: f64) -> Complex<S> { Complex::new(S::of(re), S::of(im)) }
pub fn in_<S: Fl>(x: S, lo: f64, hi: f64) -> i64 { (x.to() >= lo - S::TOL && x.to() <= hi + S::TOL) as i64 }
/// observe a logarithm-like result through e^re, cos im, sin im
pub fn obs<S: Fl>(w: (S, S), ok: i64) -> Raw {
    let (re, im) = (w.0.to(), w.1.to());
    Raw(vec![S::of(re.exp()).res(), S::of(im.cos()).res(), S::of(im.sin()).res(), ok])
}
/// the same for a result of the size of +-k ln 2
pub fn obsk<S: Fl>(w: (S, S), ok: i64, k: i32) -> Raw {
    let k = if w.0.to() < 0.0 { -k } else { k };
    let (re, im) = (w.0.to() - k as f64 * 2f64.ln(), w.1.to());
    let r = S::of(re.exp()).res();
    let f = powmod(2, k.unsigned_abs() as i64);
    let r = if r < 0 { r } else if k < 0 { r * inv(f) % P } else { r * f % P };
    Raw(vec![r, S::of(im.cos()).res(), S::of(im.sin()).res(), ok])
}
/// an integer observed up to the error of a first-order approximation
pub fn lin<S: Fl>(x: f64) -> i64 {
    let tol = if S::NAME == "f64" { 1e-5 } else { 2e-2 };
    if (x - x.round()).abs() <= tol { md(x.round() as i128) } else { IRR }
}
/// the same for x = (integer) / l
pub fn linq<S: Fl>(x: f64, l: i64, tol: f64) -> i64 {
    let y = x * l as f64;
    if (y - y.round()).abs() <= tol { md(y.round() as i128) * inv(md(l as i128)) % P } else { IRR }
}
pub fn lintol<S: Fl>() -> f64 { if S::NAME == "f64" { 2e-5 } else { 4e-2 } }
/// (q - 1) / (h/2), up to the sign of q
pub fn qtangent<S: Fl>(w: Quaternion<S>, up: f64, l: i64) -> Raw {
    let sg = if w.scalar().to() < 0.0 { -1.0 } else { 1.0 };
    let c = [sg * w.scalar().to() - 1.0, sg * w.vector()[0].to(), sg * w.vector()[1].to(), sg * w.vector()[2].to()];
    Raw(c.iter().map(|x| linq::<S>(x * 2.0 * up, l, lintol::<S>() * (1.0 + l as f64 / 8.0))).collect())
}
pub fn zadj(x: f64) -> f64 { if x == 0.0 { 0.0 } else { x } }
/// rational unit vectors in space, all octants, with zero components likely
pub fn uvec(r: &mut Rng, fine: bool) -> Vec<Q> {
    let t: &[[i64; 4]] = if fine {
        &[[1, 2, 2, 3], [2, 3, 6, 7], [4, 4, 7, 9], [1, 4, 8, 9], [0, 3, 4, 5], [0, 5, 12, 13], [2, 6, 9, 11], [0, 0, 1, 1]]
    } else {
        &[[1, 2, 2, 3], [0, 3, 4, 5], [0, 0, 1, 1], [1, 2, 2, 3]]
    };
    let b = *r.pick(t);
    let mut v = vec![b[0], b[1], b[2]];
    for i in (1..3).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
    v.iter().map(|x| Q::red(if r.chance(2) { -x } else { *x }, b[3])).collect()
}
/// a rational angle: (cos, sin, angle in (-pi, pi])
pub fn angle(r: &mut Rng, fine: bool) -> (Q, Q, f64) {
    let (c, s, h) = circle(r, fine);
    let th = if s == 0 { if c > 0 { 0.0 } else { PI } } else { (s as f64).atan2(c as f64) };
    (Q::red(c, h), Q::red(s, h), th)
}
/// unit quaternion (scalar, x, y, z) with rational components
pub fn uquat(r: &mut Rng, fine: bool) -> Vec<Q> {
    if r.chance(3) {
        let t: &[[i64; 5]] = &[[1, 1, 1, 1, 2], [1, 2, 2, 0, 3], [1, 2, 2, 4, 5], [1, 1, 3, 5, 6], [2, 2, 4, 5, 7], [0, 2, 3, 6, 7], [1, 3, 3, 9, 10], [0, 0, 3, 4, 5], [0, 0, 0, 1, 1]];
        let b = *r.pick(if fine { t } else { &t[..3] });
        let mut v = vec![b[0], b[1], b[2], b[3]];
        for i in (1..4).rev() {
            let j = r.below(i + 1);
            v.swap(i, j);
        }
        v.iter().map(|x| Q::red(if r.chance(2) { -x } else { *x }, b[4])).collect()
    } else {
        let (c, s, _) = angle(r, fine);
        let u = uvec(r, fine);
        vec![c, s * u[0], s * u[1], s * u[2]]
    }
}
pub fn qmul(a: &[Q], b: &[Q]) -> Vec<Q> {
    vec![
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
/// rotation matrix (column-major) of a quaternion, exactly
pub fn rotq(v: &[Q]) -> Vec<Q> {
    let (s, x, y, z) = (v[0], v[1], v[2], v[3]);
    let n = s * s + x * x + y * y + z * z;
    let t = q(2);
    let d = |a: Q| a / n;
    let one = q(1);
    vec![
        one - d(t * (y * y + z * z)), d(t * (x * y + s * z)), d(t * (x * z - s * y)),
        d(t * (x * y - s * z)), one - d(t * (x * x + z * z)), d(t * (y * z + s * x)),
        d(t * (x * z + s * y)), d(t * (y * z - s * x)), one - d(t * (x * x + y * y)),
    ]
}
/// the ten products of the components of a quaternion
pub fn prods<S: Fl>(w: &Quaternion<S>) -> Raw {
    let c = [w.scalar(), w.vector()[0], w.vector()[1], w.vector()[2]];
    let mut o = Vec::new();
    for i in 0..4 {
        for j in i..4 {
            o.push((c[i] * c[j]).res());
        }
    }
    Raw(o)
}
