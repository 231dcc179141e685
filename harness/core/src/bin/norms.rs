//! Driver: normalisation and unit values (C23), norms and extrema (C24).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
#[path = "../elem.rs"]
mod elem;
use cglinalg_core::*;
use cglinalg_numeric::{SimdScalarFloat, SimdScalarOrd, SimdScalarSigned};
use common::*;
use elem::*;
use pjs::*;

/// components, in the specification's order
trait Cs<S> { fn cs(&self) -> Vec<S>; fn mk(v: &[Q]) -> Self; }
impl<S: Fl, const N: usize> Cs<S> for Vector<S, N> {
    fn cs(&self) -> Vec<S> { (0..N).map(|i| self[i]).collect() }
    fn mk(v: &[Q]) -> Self { vec(v) }
}
impl<S: Fl, const N: usize> Cs<S> for Point<S, N> {
    fn cs(&self) -> Vec<S> { (0..N).map(|i| self[i]).collect() }
    fn mk(v: &[Q]) -> Self { pnt(v) }
}
impl<S: Fl, const R: usize, const C: usize> Cs<S> for Matrix<S, R, C> {
    fn cs(&self) -> Vec<S> { (0..R * C).map(|i| self[i / R][i % R]).collect() }
    fn mk(v: &[Q]) -> Self { mat(v) }
}
impl<S: Fl> Cs<S> for Quaternion<S> {
    fn cs(&self) -> Vec<S> { vec![self.scalar(), self.vector()[0], self.vector()[1], self.vector()[2]] }
    fn mk(v: &[Q]) -> Self { quat(v) }
}
impl<S: Fl> Cs<S> for Complex<S> {
    fn cs(&self) -> Vec<S> { vec![self.real(), self.imaginary()] }
    fn mk(v: &[Q]) -> Self { cpx(v) }
}
/// squares and signs of the components; `k`: power of two to remove
fn sqs<S: Fl, T: Cs<S>>(x: &T, k: i32) -> Raw {
    let c = x.cs();
    let u = |y: S| S::of(y.to() * 2f64.powi(-k));
    let mut o: Vec<i64> = c.iter().map(|y| (u(*y) * u(*y)).res()).collect();
    o.extend(c.iter().map(|y| sg(*y)));
    Raw(o)
}
fn len<S: Fl>(x: S, k: i32) -> Raw { sqd(S::of(x.to() * 2f64.powi(-k))) }
fn pow2(k: i32, x: f64) -> f64 { x * 2f64.powi(k) }
fn cat(a: Raw, b: Raw) -> Raw { Raw([a.0, b.0].concat()) }

fn normed<S: Fl, T>(rec: &mut Rec, dim: usize, kind: &str)
where
    T: Normed<Output = S> + Cs<S> + Copy + Pj + PartialEq + std::panic::RefUnwindSafe,
    Unit<T>: std::ops::Neg<Output = Unit<T>>,
    for<'a> &'a Unit<T>: std::ops::Neg<Output = Unit<T>>,
{
    let n = S::NAME;
    let fine = n == "f64";
    let mag = if fine { 12 } else if dim > 4 { 2 } else { 4 };
    let mut v = gen(&mut rec.rng, dim, mag, 1, true);
    // perfect squares, where the threshold can be met exactly
    if dim >= 2 && rec.rng.chance(3) {
        v = vec![q(0); dim];
        let i = rec.rng.below(dim);
        let j = (i + 1 + rec.rng.below(dim - 1)) % dim;
        v[i] = q(*rec.rng.pick(&[3, -3, 6, -6]));
        v[j] = q(v[i].0.abs() / 3 * *rec.rng.pick(&[4, -4]));
    }
    let w = gen(&mut rec.rng, dim, mag, 1, true);
    let nsq: i64 = v.iter().map(|x| x.0 * x.0).sum();
    let dsq: i64 = v.iter().zip(&w).map(|(x, y)| (x.0 - y.0) * (x.0 - y.0)).sum();
    // scaled by a power of two: same directions, other magnitudes
    let k = if rec.rng.chance(3) { rec.rng.int(if fine { -120 } else { -20 }, if fine { 120 } else { 20 }) as i32 } else { 0 };
    set_scale(k);
    let (x, y): (T, T) = (T::mk(&v), T::mk(&w));
    set_scale(0);
    let a = [raw(&v)];
    let ab = [raw(&v), raw(&w)];
    let d = [dim as i64];
    let _ = dsq;
    macro_rules! ev { ($o:expr, $v:expr, $d:expr, $a:expr, $g:expr) => {
        rec.call("nrm", $o, &format!("{kind}{}", $v), n, $d, $a, 0, || $g)
    }}
    hint(1);
    ev!("norm", "", &d, &a, len(Normed::norm(&x), k));
    ev!("dist", "", &d, &ab, len(Normed::distance(&x, &y), k));
    rec.call("vec", "normsq", "Normed", n, &d, &[rr(&v)], 0, || S::of(Normed::norm_squared(&x).to() * 2f64.powi(-2 * k)));
    rec.call("vec", "distsq", "Normed", n, &d, &[rr(&v), rr(&w)], 0, || S::of(Normed::distance_squared(&x, &y).to() * 2f64.powi(-2 * k)));
    if nsq != 0 {
        hint(nsq);
        ev!("unit", "normalize", &d, &a, sqs(&Normed::normalize(&x), 0));
        ev!("unitnorm", "normalize_mut", &d, &a, { let mut z = x; let l = Normed::normalize_mut(&mut z); hint(1); let l = len(l, k); hint(nsq); cat(l, sqs(&z, 0)) });
        ev!("unit", "from_value", &d, &a, sqs(&Unit::from_value(x).into_inner(), 0));
        ev!("unitnorm", "from_value_with_norm", &d, &a, { let (u, l) = Unit::from_value_with_norm(x); hint(1); let l = len(l, k); hint(nsq); cat(l, sqs(&u.into_inner(), 0)) });
        ev!("unit", "deref", &d, &a, { let u = Unit::from_value(x); let t: &T = &u; sqs(t, 0) });
        ev!("unit", "as_ref", &d, &a, { let u = Unit::from_value(x); sqs(AsRef::<T>::as_ref(&u), 0) });
        ev!("negunit", "v", &d, &a, sqs(&(-Unit::from_value(x)).into_inner(), 0));
        ev!("negunit", "r", &d, &a, { let u = Unit::from_value(x); sqs(&(-&u).into_inner(), 0) });
        ev!("unit", "negneg", &d, &a, sqs(&(-(-Unit::from_value(x))).into_inner(), 0));
    }
    hint(1);
    ev!("same", "unchecked", &d, &a, sqs(&Unit::from_value_unchecked(x).into_inner(), k));
    // thresholds in eighths, at and around the norm
    let root = (nsq as f64).sqrt();
    for j in 0..3 {
        let t8 = match (j, rec.rng.below(2)) {
            (0, _) => (root * 8.0).floor() as i64,
            (1, 0) => (root * 8.0).ceil() as i64 + rec.rng.int(0, 1),
            (1, _) => Ord::max((root * 8.0).floor() as i64 - 1, 0),
            (_, 0) => 0,
            _ => rec.rng.int(0, 100),
        };
        let t = S::of(pow2(k, t8 as f64 / 8.0));
        let d = [t8];
        let hl = |l: S| { hint(1); let l = len(l, k); hint(nsq); l };
        hint(nsq);
        ev!("tryunit", "try_normalize", &d, &a, Normed::try_normalize(&x, t).map(|z| sqs(&z, 0)));
        ev!("tryinplace", "try_normalize_mut", &d, &a, {
            let mut z = x;
            match Normed::try_normalize_mut(&mut z, t) {
                Some(l) => { let l = hl(l); cat(l, sqs(&z, 0)) }
                None => { hint(1); sqs(&z, k) }
            }
        });
        hint(nsq);
        ev!("tryunit", "try_from_value", &d, &a, Unit::try_from_value(x, t).map(|z| sqs(&z.into_inner(), 0)));
        ev!("trynorm", "try_from_value_with_norm", &d, &a, Unit::try_from_value_with_norm(x, t).map(|(z, l)| { let l = hl(l); cat(l, sqs(&z.into_inner(), 0)) }));
    }
    // scaling, by factors of any size
    {
        let s = Q(rec.rng.int(-9, 9), 1 << rec.rng.below(2));
        let j = if rec.rng.chance(3) { rec.rng.int(if fine { -80 } else { -12 }, if fine { 80 } else { 12 }) as i32 } else { 0 };
        let sc = S::of(pow2(j, s.f()));
        let e = [rr(&v), vec![s.r()]];
        let parts = |z: T, k: i32| Raw(z.cs().iter().map(|y| S::of(y.to() * 2f64.powi(-k)).res()).collect());
        hint(8);
        rec.call("vec", "smul", "scale", n, &d, &e, 0, || parts(Normed::scale(&x, sc), k + j));
        rec.call("vec", "smul", "scale_mut", n, &d, &e, 0, || { let mut z = x; Normed::scale_mut(&mut z, sc); parts(z, k + j) });
        if s.0 != 0 {
            hint(s.0);
            rec.call("vec", "sdiv", "unscale", n, &d, &e, 0, || parts(Normed::unscale(&x, sc), k - j));
            rec.call("vec", "sdiv", "unscale_mut", n, &d, &e, 0, || { let mut z = x; Normed::unscale_mut(&mut z, sc); parts(z, k - j) });
        }
    }
    hint(1);
}
fn all_normed<S: Fl>(rec: &mut Rec) {
    normed::<S, Vector<S, 1>>(rec, 1, "v");
    normed::<S, Vector<S, 2>>(rec, 2, "v");
    normed::<S, Vector<S, 3>>(rec, 3, "v");
    normed::<S, Vector<S, 4>>(rec, 4, "v");
    normed::<S, Point<S, 1>>(rec, 1, "p");
    normed::<S, Point<S, 2>>(rec, 2, "p");
    normed::<S, Point<S, 3>>(rec, 3, "p");
    normed::<S, Complex<S>>(rec, 2, "c");
    normed::<S, Quaternion<S>>(rec, 4, "q");
    normed::<S, Matrix<S, 1, 1>>(rec, 1, "m");
    normed::<S, Matrix<S, 2, 2>>(rec, 4, "m");
    normed::<S, Matrix<S, 3, 3>>(rec, 9, "m");
    normed::<S, Matrix<S, 4, 4>>(rec, 16, "m");
    normed::<S, Matrix<S, 2, 3>>(rec, 6, "m");
    normed::<S, Matrix<S, 4, 2>>(rec, 8, "m");
    if rec.rng.chance(3) {
        normed::<S, Matrix<S, 2, 4>>(rec, 8, "m");
        normed::<S, Matrix<S, 3, 2>>(rec, 6, "m");
        normed::<S, Matrix<S, 1, 4>>(rec, 4, "m");
        normed::<S, Matrix<S, 3, 1>>(rec, 3, "m");
        normed::<S, Vector<S, 6>>(rec, 6, "v");
        normed::<S, Point<S, 5>>(rec, 5, "p");
    }
}
fn c23(rec: &mut Rec) {
    for _ in 0..rec.iters(250, 2600) {
        rec.next();
        all_normed::<f64>(rec);
        all_normed::<f32>(rec);
    }
}

// ------------------------------------------------------------------- C24
fn int_norms<S: Sc + SimdScalarSigned + SimdScalarOrd, const N: usize>(rec: &mut Rec) {
    let n = S::NAME;
    let mag = if n == "i8" { 10 } else { 500 };
    let (v, w) = (gen(&mut rec.rng, N, mag, 1, true), gen(&mut rec.rng, N, mag, 1, true));
    let (x, y): (Vector<S, N>, Vector<S, N>) = (vec(&v), vec(&w));
    let (a, ab) = ([raw(&v)], [raw(&v), raw(&w)]);
    let d = [N as i64];
    rec.rawcall("nrm", "l1", "m", n, &d, &a, || x.l1_norm());
    rec.rawcall("nrm", "linf", "m", n, &d, &a, || x.linf_norm());
    rec.rawcall("nrm", "l1", "apply", n, &d, &a, || x.apply_norm(&L1Norm::new()));
    rec.rawcall("nrm", "linf", "apply", n, &d, &a, || x.apply_norm(&LinfNorm::new()));
    rec.rawcall("nrm", "linf", "uniform", n, &d, &a, || x.apply_norm(&UniformNorm::new()));
    rec.rawcall("nrm", "l1", "obj", n, &d, &a, || Norm::norm(&L1Norm::new(), &x));
    rec.rawcall("nrm", "linf", "obj", n, &d, &a, || Norm::norm(&LinfNorm::new(), &x));
    rec.rawcall("nrm", "dl1", "apply", n, &d, &ab, || x.apply_metric_distance(&y, &L1Norm::new()));
    rec.rawcall("nrm", "dlinf", "apply", n, &d, &ab, || x.apply_metric_distance(&y, &LinfNorm::new()));
    rec.rawcall("nrm", "dl1", "obj", n, &d, &ab, || Norm::metric_distance(&L1Norm::new(), &x, &y));
    rec.rawcall("nrm", "dlinf", "obj", n, &d, &ab, || Norm::metric_distance(&LinfNorm::new(), &x, &y));
}
fn mat_norms<S: Sc + SimdScalarSigned + SimdScalarOrd, const R: usize, const C: usize>(rec: &mut Rec) {
    let n = S::NAME;
    let mag = if n == "i8" { 6 } else { 500 };
    let (v, w) = (gen(&mut rec.rng, R * C, mag, 1, true), gen(&mut rec.rng, R * C, mag, 1, true));
    let (x, y): (Matrix<S, R, C>, Matrix<S, R, C>) = (mat(&v), mat(&w));
    let (a, ab) = ([raw(&v)], [raw(&v), raw(&w)]);
    let d = [R as i64, C as i64];
    rec.rawcall("nrm", "ml1", "m", n, &d, &a, || x.l1_norm());
    rec.rawcall("nrm", "mlinf", "m", n, &d, &a, || x.linf_norm());
    rec.rawcall("nrm", "ml1", "apply", n, &d, &a, || x.apply_norm(&L1MatrixNorm::new()));
    rec.rawcall("nrm", "mlinf", "apply", n, &d, &a, || x.apply_norm(&LinfMatrixNorm::new()));
    rec.rawcall("nrm", "dml1", "apply", n, &d, &ab, || x.apply_metric_distance(&y, &L1MatrixNorm::new()));
    rec.rawcall("nrm", "dmlinf", "apply", n, &d, &ab, || x.apply_metric_distance(&y, &LinfMatrixNorm::new()));
}
fn mat_norms_f<S: Fl, const R: usize, const C: usize>(rec: &mut Rec) {
    let n = S::NAME;
    let mag = if n == "f64" { 30 } else { 3 };
    let (v, w) = (gen(&mut rec.rng, R * C, mag, 1, true), gen(&mut rec.rng, R * C, mag, 1, true));
    let (x, y): (Matrix<S, R, C>, Matrix<S, R, C>) = (mat(&v), mat(&w));
    let (a, ab) = ([raw(&v)], [raw(&v), raw(&w)]);
    let d = [R as i64, C as i64];
    rec.call("nrm", "norm", "m", n, &d, &a, 0, || sqd(x.norm()));
    rec.call("nrm", "norm", "mag", n, &d, &a, 0, || sqd(x.magnitude()));
    rec.call("nrm", "norm", "frob", n, &d, &a, 0, || sqd(x.apply_norm(&FrobeniusNorm::new())));
    rec.call("nrm", "dist", "m", n, &d, &ab, 0, || sqd(x.metric_distance(&y)));
    rec.call("nrm", "dist", "frob", n, &d, &ab, 0, || sqd(x.apply_metric_distance(&y, &FrobeniusNorm::new())));
    let (ra, rab) = ([rr(&v)], [rr(&v), rr(&w)]);
    rec.call("vec", "normsq", "m", n, &d, &ra, 0, || x.norm_squared());
    rec.call("vec", "normsq", "mag", n, &d, &ra, 0, || x.magnitude_squared());
    rec.call("vec", "distsq", "m", n, &d, &rab, 0, || x.metric_distance_squared(&y));
}
fn flt_norms<S: Fl, const N: usize>(rec: &mut Rec) {
    let n = S::NAME;
    let mag = if n == "f64" { 30 } else { 5 };
    let (v, w) = (gen(&mut rec.rng, N, mag, 1, true), gen(&mut rec.rng, N, mag, 1, true));
    let (x, y): (Vector<S, N>, Vector<S, N>) = (vec(&v), vec(&w));
    let (s, t): (Point<S, N>, Point<S, N>) = (pnt(&v), pnt(&w));
    let (a, ab) = ([raw(&v)], [raw(&v), raw(&w)]);
    let d = [N as i64];
    rec.call("nrm", "norm", "m", n, &d, &a, 0, || sqd(x.norm()));
    rec.call("nrm", "norm", "mag", n, &d, &a, 0, || sqd(x.magnitude()));
    rec.call("nrm", "norm", "l2", n, &d, &a, 0, || sqd(x.l2_norm()));
    rec.call("nrm", "norm", "apply", n, &d, &a, 0, || sqd(x.apply_norm(&L2Norm::new())));
    rec.call("nrm", "norm", "eucl", n, &d, &a, 0, || sqd(x.apply_norm(&EuclideanNorm::new())));
    rec.call("nrm", "norm", "p", n, &d, &a, 0, || sqd(s.norm()));
    rec.call("nrm", "norm", "pmag", n, &d, &a, 0, || sqd(s.magnitude()));
    rec.call("nrm", "norm", "pl2", n, &d, &a, 0, || sqd(s.l2_norm()));
    rec.call("nrm", "dist", "m", n, &d, &ab, 0, || sqd(x.metric_distance(&y)));
    rec.call("nrm", "dist", "p", n, &d, &ab, 0, || sqd(s.metric_distance(&t)));
    rec.call("nrm", "dist", "apply", n, &d, &ab, 0, || sqd(x.apply_metric_distance(&y, &L2Norm::new())));
    rec.rawcall("nrm", "cmin", "m", n, &d, &ab, || x.component_min(&y));
    rec.rawcall("nrm", "cmax", "m", n, &d, &ab, || x.component_max(&y));
    let ra = [rr(&v)];
    let rab = [rr(&v), rr(&w)];
    rec.call("vec", "distsq", "p", n, &d, &rab, 0, || s.metric_distance_squared(&t));
    rec.call("vec", "normsq", "p", n, &d, &ra, 0, || s.norm_squared());
    // p-norms of small vectors, so that the p-th power is still exact
    let p = rec.rng.int(1, if n == "f64" { 6 } else { 3 }) as u32;
    let mag = if n == "f64" { 6 } else { 3 };
    let (v, w) = (gen(&mut rec.rng, N, mag, 1, true), gen(&mut rec.rng, N, mag, 1, true));
    let (x, y): (Vector<S, N>, Vector<S, N>) = (vec(&v), vec(&w));
    let (a, ab) = ([raw(&v)], [raw(&v), raw(&w)]);
    let ob = |l: S| Raw(vec![S::of(l.to().powi(p as i32)).res(), (l.to() >= 0.0) as i64]);
    rec.call("nrm", "lp", "m", n, &[p as i64], &a, 0, || ob(x.lp_norm(p)));
    rec.call("nrm", "lp", "apply", n, &[p as i64], &a, 0, || ob(x.apply_norm(&LpNorm::new(p))));
    if n == "f64" {
        rec.call("nrm", "dlp", "apply", n, &[p as i64], &ab, 0, || ob(x.apply_metric_distance(&y, &LpNorm::new(p))));
    }
}
fn scalars<S: Sc + SimdScalarSigned + SimdScalarOrd>(rec: &mut Rec, v: i64, w: i64, u: i64) {
    let n = S::NAME;
    let (x, y, z) = (S::ofq(q(v)), S::ofq(q(w)), S::ofq(q(u)));
    let (a, ab) = ([vec![v]], [vec![v], vec![w]]);
    rec.rawcall("nrm", "cmin", "s", n, &[], &ab, || SimdScalarOrd::min(x, y));
    rec.rawcall("nrm", "cmax", "s", n, &[], &ab, || SimdScalarOrd::max(x, y));
    if w <= u {
        rec.rawcall("nrm", "clamp", "s", n, &[], &[vec![v], vec![w], vec![u]], || SimdScalarOrd::clamp(x, y, z));
    }
    rec.rawcall("nrm", "abs", "s", n, &[], &a, || SimdScalarSigned::abs(x));
    if v != 0 || !S::FLOAT {
        rec.rawcall("nrm", "signum", "s", n, &[], &a, || SimdScalarSigned::signum(x));
        rec.rawcall("nrm", "ispos", "s", n, &[], &a, || SimdScalarSigned::is_sign_positive(x));
        rec.rawcall("nrm", "isneg", "s", n, &[], &a, || SimdScalarSigned::is_sign_negative(x));
    }
    if w != 0 {
        rec.rawcall("nrm", "copysign", "s", n, &[], &ab, || SimdScalarSigned::copysign(x, y));
    }
}
fn c24(rec: &mut Rec) {
    // all orderings of three values around zero, every signed type
    for i in -3..=3 {
        for j in -3..=3 {
            for k in -3..=3 {
                rec.next();
                macro_rules! t { ($($t:ty)*) => {$( scalars::<$t>(rec, i, j, k); )*} }
                t!(i8 i16 i32 i64 i128 isize f32 f64);
            }
        }
    }
    for i in -127..=127 {
        let (a, b) = (rec.rng.int(-127, 127), rec.rng.int(-127, 127));
        scalars::<i8>(rec, i, Ord::min(a, b), Ord::max(a, b));
    }
    for _ in 0..rec.iters(150, 2500) {
        rec.next();
        // every shape appears; each iteration draws some of them
        macro_rules! shapes { ($f:ident, $t:ty) => { for _ in 0..6 { match (1 + rec.rng.below(4), 1 + rec.rng.below(4)) {
            (1, 1) => $f::<$t, 1, 1>(rec), (1, 2) => $f::<$t, 1, 2>(rec), (1, 3) => $f::<$t, 1, 3>(rec), (1, 4) => $f::<$t, 1, 4>(rec),
            (2, 1) => $f::<$t, 2, 1>(rec), (2, 2) => $f::<$t, 2, 2>(rec), (2, 3) => $f::<$t, 2, 3>(rec), (2, 4) => $f::<$t, 2, 4>(rec),
            (3, 1) => $f::<$t, 3, 1>(rec), (3, 2) => $f::<$t, 3, 2>(rec), (3, 3) => $f::<$t, 3, 3>(rec), (3, 4) => $f::<$t, 3, 4>(rec),
            (4, 1) => $f::<$t, 4, 1>(rec), (4, 2) => $f::<$t, 4, 2>(rec), (4, 3) => $f::<$t, 4, 3>(rec), _ => $f::<$t, 4, 4>(rec),
        } } } }
        macro_rules! s { ($($t:ty)*) => {$( {
            let m = Ord::min(1_000_000_000i64, if <$t as Sc>::NAME == "i8" { 127 } else if <$t as Sc>::NAME == "i16" { 32767 } else if <$t as Sc>::NAME == "f32" { 16_000_000 } else { 1_000_000_000 });
            let (a, b, c) = (rec.rng.int(-m, m), rec.rng.int(-m, m), rec.rng.int(-m, m));
            scalars::<$t>(rec, a, b, c);
            int_norms::<$t, 1>(rec); int_norms::<$t, 2>(rec); int_norms::<$t, 3>(rec); int_norms::<$t, 4>(rec); int_norms::<$t, 6>(rec);
            shapes!(mat_norms, $t);
        } )*} }
        s!(i8 i32 f64 f32);
        if rec.rng.chance(8) { s!(i16 i64 isize i128); }
        macro_rules! f { ($($t:ty)*) => {$(
            flt_norms::<$t, 1>(rec); flt_norms::<$t, 2>(rec); flt_norms::<$t, 3>(rec); flt_norms::<$t, 4>(rec); flt_norms::<$t, 5>(rec);
            shapes!(mat_norms_f, $t);
            let (a, b) = (gen(&mut rec.rng, 2, 9, 1, true), 0); let _ = b;
            let z: Complex<$t> = cpx(&a);
            let nm = <$t as Sc>::NAME;
            rec.rawcall("nrm", "l1", "c", nm, &[2], &[raw(&a)], || z.l1_norm());
            rec.call("nrm", "norm", "c", nm, &[2], &[raw(&a)], 0, || sqd(z.norm()));
            rec.call("nrm", "norm", "cmod", nm, &[2], &[raw(&a)], 0, || sqd(z.modulus()));
            rec.call("nrm", "norm", "cmag", nm, &[2], &[raw(&a)], 0, || sqd(z.magnitude()));
            rec.call("nrm", "norm", "cl2", nm, &[2], &[raw(&a)], 0, || sqd(z.l2_norm()));
            let a = gen(&mut rec.rng, 4, 6, 1, true);
            let w: Quaternion<$t> = quat(&a);
            let b = gen(&mut rec.rng, 4, 6, 1, true);
            let w2: Quaternion<$t> = quat(&b);
            rec.call("nrm", "norm", "q", nm, &[4], &[raw(&a)], 0, || sqd(w.norm()));
            rec.call("nrm", "norm", "qmag", nm, &[4], &[raw(&a)], 0, || sqd(w.magnitude()));
            rec.call("nrm", "dist", "q", nm, &[4], &[raw(&a), raw(&b)], 0, || sqd(w.metric_distance(&w2)));
        )*} }
        f!(f64 f32);
    }
}
fn main() {
    drive(&[("C23", c23), ("C24", c24)]);
}
